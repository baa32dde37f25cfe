"""C12: windowed reading respects the mixture in every window."""
from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, require, sut

RULE = ("chunks drawn from generated query results with generated mixtures (strict, best-effort, inferred, none), read with window sizes "
        "1 to beyond the chunk size, and (exact) chunks with prescribed per-key row counts, one key possibly too short in best-effort mode; window best-effort on and off, with and without first-sample prefetching; every full window is compared "
        "with the shares computed exactly; (large) the same up to 700 times as large; non-trivial = at least two keys and at least two full windows")


@st.composite
def exact(draw):
    """A mixture given by row counts, with data for it (and, in best-effort mode, possibly too little of one key)."""
    k = draw(st.integers(2, 5))
    comps = draw(st.lists(st.sampled_from([[a, None] for a in qr.LANGS] + [[None, [t]] for t in qr.TOPICS]), min_size=k, max_size=k,
                          unique_by=str))
    rows = [draw(st.one_of(st.integers(1, 5), st.integers(1, 50))) for _ in comps]
    segs = []
    short = draw(st.sampled_from([None, None, 0, 1]))
    for i, n in enumerate(rows):
        n = n if i != short else max(n // 2, 1)
        while n:
            s = draw(st.integers(1, n))
            segs.append([draw(st.integers(0, 1)), i, s, draw(st.integers(0, 1))])
            n -= s
    if short is not None:
        segs.append([0, 1 - short, rows[short], 0])
    segs = draw(st.permutations(segs))
    size = sum(rows)
    return {"data": {"comps": comps, "files": [1, draw(st.integers(1, 2))], "segs": [list(s) for s in segs]},
            "mix": {"kind": "static", "size": size, "strict": short is None, "parts": rows,
                    "keys": [[[n, list(v)] for n, v in sorted(qr.props_of(c).items())] for c in comps]},
            "window": draw(st.one_of(st.integers(1, 8), st.integers(1, size), st.integers(1, max(size // 3, 1)),
                                     st.just(size), st.just(size + 3))),
            "best_effort": draw(st.booleans()), "prefetch": draw(st.booleans()), "chunks": 2}


@st.composite
def case(draw):
    d = draw(qr.data(max_comps=5, max_len=draw(st.sampled_from([6, 40, 60])), max_segs=12))
    m = draw(qr.mixture(d["comps"], kinds=("static", "static", "infer", "arbitrary"), max_size=draw(st.sampled_from([12, 60, 120])), d=d))
    return {"data": d, "mix": m, "window": draw(st.one_of(st.integers(1, 8), st.integers(1, 130))), "best_effort": draw(st.booleans()),
            "prefetch": draw(st.booleans()), "chunks": 3}


def run(case):
    labels = set()
    with sut("creating the chunks"):
        q, _ = qr.new_result(case["data"], qr.build(case["mix"]))
        chunks = []
        for c in q:
            chunks.append(c)
            if len(chunks) >= case["chunks"]:
                break
    for chunk in chunks:
        per = qr.chunk_samples(chunk)
        n = {k: len(v) for k, v in per.items()}
        nominal = case["mix"]["size"]
        with sut("reading in window mode"):
            rows = qr.read(chunk, chunk_reading_mixture_type="window", chunk_reading_window_size=case["window"],
                           chunk_reading_window_best_effort=case["best_effort"],
                           chunk_reading_prefetch_first_sample=case["prefetch"])
        ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
        names = {ids[k]: k for k in per}
        w = min(case["window"], nominal)
        total = sum(n.values())
        # the share of a key is its share of the nominal chunk
        share = {k: w * v // nominal for k, v in n.items()}
        rest = w - sum(share.values())
        eq([r[0] for r in rows], list(range(len(rows))), "sample numbers")
        got = [names[r[1]] for r in rows]
        # every sample comes from its key's part of the chunk, none twice
        for k in per:
            mine = [r[2] for r in rows if names[r[1]] == k]
            have = {f"f{f}/{i}" for _, f, i in per[k]}
            require(len(mine) == len(set(mine)) and set(mine) <= have, "samples read for %s are not distinct samples of its part", k)
        # the key that gets the remainder is not specified: find one that explains all full windows
        fits = False
        why = None
        full = 0
        for extra in per if rest else [None]:
            need = {k: s + (rest if k == extra else 0) for k, s in share.items()}
            f = min((n[k] // need[k] for k in need if need[k] > 0), default=0)
            ok = True
            for i in range(f):
                win = got[i * w:(i + 1) * w]
                c = {k: win.count(k) for k in need}
                if c != need:
                    ok = False
                    why = f"window {i} of {f} full windows holds {c}, expected {need} (window size {w}, content {n})"
                    break
            if ok and not case["best_effort"]:
                # reading stops with the window in which a key ran out
                tail = got[f * w:]
                over = {k: tail.count(k) for k in need if tail.count(k) > need[k]}
                if len(tail) >= w or over:
                    ok = False
                    why = f"reading goes on after the window in which a key ran out: {len(got)} samples, {f} full windows of {w}, {n}"
                # the last window still hands out what the other keys can supply
                elif any(tail.count(k) < min(need[k], n[k] - f * need[k]) for k in need):
                    ok = False
                    why = f"the last window holds {[tail.count(k) for k in need]}, shares {need}, content {n}"
            if ok:
                fits = True
                full = max(full, f)
        require(fits, "%s", why)
        if case["best_effort"]:
            eq(len(got), total, "samples read in best-effort mode")
        if len(per) > 1:
            labels.add("keys")
            if full >= 2:
                labels.add("nt")
        labels.add("best-effort" if case["best_effort"] else "strict-window")
    return labels


SUBS = [
    Sub("windows", case, run, quick=2500, thorough=100000, shards=8, cpu=20),
    Sub("exact", exact, run, quick=4000, thorough=200000, shards=8, cpu=20),
    Sub("large", lambda: qr.large(st.one_of(case(), exact())), lambda c: run(qr.grown(c)), quick=160, thorough=6000, shards=8, cpu=60),
]
