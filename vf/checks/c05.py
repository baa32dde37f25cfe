"""C05: strict mixtures produce chunks of exactly the requested composition."""
from vf import qr
from vf.core import Sub, eq, require, sut

RULE = ("generated query results (1-6 property combinations over 1-4 files, C03's generator) with 1-4 successive strict mixtures "
        "(static with disjoint, overlapping, multi-valued, never-matching, match-all and zero-row keys; inferred), 0-4 chunks drawn "
        "from each and the last one drained; every chunk's composition and every end of generation is compared with an availability "
        "ledger, and chunks are streamed; (large) the same up to 700 times as large; non-trivial = at least 2 chunks with at least two keys")


def avail(owner, seen, comps, key):
    props = [[a, list(b)] for a, b in key]
    ok = [qr.matches(props, c) for c in comps]
    return sum(1 for s, c in owner.items() if ok[c] and s not in seen)


def run(case):
    comps = case["data"]["comps"]
    seen = set()
    state = {"fails": 0}
    labels = set()
    n = [0]

    def on_switch(mix, spec, q, owner):
        state.update(q=q, owner=owner)

    def on_chunk(chunk, mix, spec):
        want = qr.requested(mix)
        per = qr.chunk_samples(chunk)
        eq({k: len(v) for k, v in per.items()}, want, "composition of the chunk")
        for k, samples in per.items():
            for s in samples:
                require(s in state["owner"] and s not in seen, "sample %s not selected or handed out before", s)
                require(qr.matches([[a, list(b)] for a, b in k], comps[state["owner"][s]]), "sample of %s handed out under %s",
                        comps[state["owner"][s]], k)
                seen.add(s)
        rows = qr.read(chunk)
        ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
        got = {}
        for _, kid, text in rows:
            got.setdefault(kid, []).append(text)
        eq({k: sorted(v) for k, v in got.items()},
           {ids[k]: sorted(f"f{f}/{i}" for _, f, i in v) for k, v in per.items()}, "samples read from the chunk per key id")
        state["fails"] = 0
        n[0] += 1
        if len(want) > 1:
            labels.add("multi")
        if len(want) < len(mix.mixture_in_rows()):
            labels.add("zero-share")

    def on_none(mix, spec, fails, stopped):
        labels.add("end")
        state["fails"] += 1
        if state["fails"] > 10:
            return
        want = qr.requested(mix)
        matching = {k: {i for i, c in enumerate(comps) if qr.matches([[a, list(b)] for a, b in k], c)} for k in want}
        for k, need in want.items():
            rivals = sum(v for o, v in want.items() if o != k and matching[o] & matching[k])
            if avail(state["owner"], seen, comps, k) - rivals < need:
                if any(avail(state["owner"], seen, comps, o) for o in want):
                    labels.add("stopped-with-data-left")
                return
        raise_stop(mix, want, state, seen, comps)

    with sut("iterating with strict mixtures"):
        qr.play(case, on_chunk, on_none, on_switch)
    if n[0] >= 2 and "multi" in labels:
        labels.add("nt")
    return labels


def raise_stop(mix, want, state, seen, comps):
    require(False, "no chunk is generated for %s although every key has enough data left: %s", want,
            {k: avail(state["owner"], seen, comps, k) for k in want})


SUBS = [
    Sub("strict", lambda: qr.history(kinds=("static", "static", "static", "infer"), strict=True), run, quick=5000, thorough=250000,
        shards=8, cpu=20),
    Sub("large", lambda: qr.large(qr.history(kinds=("static", "static", "static", "infer"), strict=True)), lambda c: run(qr.grown(c)),
        quick=160, thorough=6000, shards=8, cpu=60),
]
