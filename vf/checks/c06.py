"""C06: best-effort mixtures keep chunks full and report what they contain."""
from vf import qr
from vf.core import Sub, eq, require, sut

RULE = ("generated query results (C03's generator) with 1-4 successive best-effort mixtures (static with disjoint, overlapping, "
        "multi-valued, never-matching and zero-row keys; inferred), 0-4 chunks drawn from each and the last one drained; each chunk is "
        "compared with an availability ledger; (large) the same up to 700 times as large; non-trivial = at least one chunk made while a key ran short")


def run(case):
    comps = case["data"]["comps"]
    seen = set()
    state = {"fails": 0}
    labels = set()

    def match(k):
        return {i for i, c in enumerate(comps) if qr.matches([[a, list(b)] for a, b in k], c)}

    def left(cs):
        return sum(1 for s, c in state["owner"].items() if c in cs and s not in seen)

    def on_switch(mix, spec, q, owner):
        state.update(q=q, owner=owner)

    def on_chunk(chunk, mix, spec):
        state["fails"] = 0
        want = qr.requested(mix)
        m = {k: match(k) for k in want}
        per = qr.chunk_samples(chunk)
        got = {k: len(v) for k, v in per.items()}
        eq(sum(got.values()), mix.chunk_size, "samples in the chunk")
        reported = {qr.content(k): v for k, v in chunk._mixture.items()}
        eq(reported, got, "reported mixture against the content of the chunk")
        for k, samples in per.items():
            require(k in want, "chunk holds samples under %s, which is not a key (with rows) of the mixture", k)
            for s in samples:
                require(s in state["owner"] and s not in seen, "sample %s not selected or handed out before", s)
                require(state["owner"][s] in m[k], "sample of %s handed out under %s", comps[state["owner"][s]], k)
        before = {k: left(m[k]) for k in want}
        rivals = {k: sum(v for o, v in want.items() if o != k and m[o] & m[k]) for k in want}
        for samples in per.values():
            seen.update(samples)
        after = {k: left(m[k]) for k in want}
        if all(before[k] - rivals[k] >= want[k] for k in want):
            eq(got, want, "composition although every key has enough data")
        short = [k for k in want if got.get(k, 0) < want[k]]
        for k in short:
            eq(after[k], 0, f"samples left for {k}, which contributed {got.get(k, 0)} of {want[k]}")
        if short:
            labels.add("nt")
        # A single short key whose shortfall the others can absorb: extras are proportional to the shares.
        if len(short) == 1 and len(want) > 2 and all(after[k] > 0 for k in want if k != short[0]) \
                and not any(m[a] & m[b] for a in want for b in want if a != b):
            miss = want[short[0]] - got.get(short[0], 0)
            rest = sum(want.values()) - want[short[0]]
            for k in want:
                if k == short[0]:
                    continue
                ideal = miss * want[k] / rest
                extra = got[k] - want[k]
                require(ideal - 1 < extra < ideal + 1, "%s takes %s of the %s missing samples, its proportional share is %.3f", k,
                        extra, miss, ideal)
                labels.add("proportional")
        rows = qr.read(chunk)
        ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
        back = {}
        for _, kid, text in rows:
            back.setdefault(kid, []).append(text)
        eq({k: sorted(v) for k, v in back.items()},
           {ids[k]: sorted(f"f{f}/{i}" for _, f, i in v) for k, v in per.items()}, "samples read from the chunk per key id")

    def on_none(mix, spec, fails, stopped):
        state["fails"] += 1
        if state["fails"] > 10:
            return
        want = qr.requested(mix)
        cs = set().union(*[match(k) for k in want])
        n = left(cs)
        require(n < mix.chunk_size, "no chunk of %s samples is generated although %s matching samples are left", mix.chunk_size, n)
        labels.add("end")
        if n:
            labels.add("end-with-rest")

    with sut("iterating with best-effort mixtures"):
        qr.play(case, on_chunk, on_none, on_switch)
    return labels


SUBS = [
    Sub("best-effort", lambda: qr.history(kinds=("static", "static", "static", "infer"), strict=False), run, quick=5000,
        thorough=250000, shards=8, cpu=20),
    Sub("large", lambda: qr.large(qr.history(kinds=("static", "static", "static", "infer"), strict=False)), lambda c: run(qr.grown(c)),
        quick=160, thorough=6000, shards=8, cpu=60),
]
