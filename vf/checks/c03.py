"""C03: chunks partition the query result: no sample lost or duplicated."""
from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, fail, require, sut

RULE = ("query results of 1-6 property combinations scattered over 1-4 files of 1-3 datasets (1-22 segments with gaps), chunk sizes "
        "1-20; (arbitrary) no mixture, drained; (history) 1-4 mixtures (static with disjoint, overlapping, multi-valued, absent and "
        "zero-row keys; inferred; none; strict or best-effort) in sequence with 0-4 chunks drawn from each and the last one drained; "
        "(large) the same up to 700 times as large; non-trivial = at least 3 chunks, and several property combinations or mixtures")


@st.composite
def arb_case(draw):
    return {"data": draw(qr.data()), "size": draw(st.one_of(st.integers(1, 6), st.integers(1, 40)))}


def run_arbitrary(case):
    d = case["data"]
    with sut("iterating without a mixture"):
        q, owner = qr.new_result(d, qr.build({"kind": "arbitrary", "size": case["size"]}))
        chunks = []
        for c in q:
            require(c is not None, "None handed out")
            chunks.append(qr.chunk_samples(c))
            require(len(chunks) <= len(owner), "more chunks than samples")
    contents = {i: tuple(sorted((n, tuple(sorted(v))) for n, v in qr.props_of(c).items())) for i, c in enumerate(d["comps"])}
    seen = []
    for c in chunks:
        require(len(c) == 1, "chunk holds several property combinations: %s", list(c))
        (k, samples), = c.items()
        require(0 < len(samples) <= case["size"], "chunk of %s samples, chunk size %s", len(samples), case["size"])
        for s in samples:
            require(s in owner, "sample %s was not selected by the query", s)
            eq(k, contents[owner[s]], f"property combination under which sample {s} is handed out")
        seen += samples
    if len(seen) != len(set(seen)):
        fail("samples handed out twice: %s", [a for a, b in zip(sorted(seen), sorted(seen)[1:]) if a == b][:5])
    eq(sorted(seen), sorted(owner), "samples handed out")
    return {"nt"} if len(chunks) >= 3 and len(set(owner.values())) > 1 else set()


def run_history(case):
    comps = case["data"]["comps"]
    seen = {}
    n = [0]
    state = {}
    labels = set()

    def on_switch(mix, spec, q, owner):
        state["owner"] = owner

    def on_chunk(chunk, mix, spec):
        n[0] += 1
        owner = state["owner"]
        per = qr.chunk_samples(chunk)
        total = sum(len(v) for v in per.values())
        require(0 < total <= mix.chunk_size, "chunk of %s samples, chunk size %s", total, mix.chunk_size)
        for k, samples in per.items():
            for s in samples:
                require(s in owner, "sample %s was not selected by the query", s)
                require(s not in seen, "sample %s handed out in chunk %s and in chunk %s", s, seen.get(s), n[0])
                seen[s] = n[0]
                require(qr.matches([[a, list(b)] for a, b in k], comps[owner[s]]), "sample with properties %s handed out under key %s",
                        comps[owner[s]], k)

    def on_none(mix, spec, fails, stopped):
        labels.add("exhausted")

    with sut("iterating with mixtures"):
        q, owner, _ = qr.play(case, on_chunk, on_none, on_switch)
    if n[0] >= 3 and (len(case["phases"]) > 1 or len(comps) > 1):
        labels.add("nt")
    if len(case["phases"]) > 1:
        labels.add("mixture-changes")
    if case["phases"][-1]["mix"]["kind"] == "arbitrary" and not labels & {"exhausted"}:
        labels.add("drained")
    return labels


SUBS = [
    Sub("arbitrary", arb_case, run_arbitrary, quick=3000, thorough=150000, shards=8, cpu=20),
    Sub("history", qr.history, run_history, quick=4000, thorough=200000, shards=8, cpu=20),
    Sub("large-arbitrary", lambda: qr.large(arb_case()), lambda c: run_arbitrary(qr.grown(c)), quick=80, thorough=3000, shards=8, cpu=60),
    Sub("large-history", lambda: qr.large(qr.history()), lambda c: run_history(qr.grown(c)), quick=120, thorough=5000, shards=8, cpu=60),
]
