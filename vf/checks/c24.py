"""C24: a mixture schedule is in force by training step."""
from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, require, sut

from mixtera.core.query.mixture import HierarchicalStaticMixture, MixtureSchedule, ScheduleEntry
from mixtera.core.query.mixture.hierarchical_static_mixture import Component, MixtureNode
from mixtera.network.client.client_feedback import ClientFeedback

RULE = ("schedules of 1-5 entries (static, hierarchical, inferred and arbitrary; strict and best-effort; own chunk sizes equal to or different "
        "from the schedule's; listed in any order) over generated query results, driven by 1-14 operations: reports of training steps (also "
        "late, repeated, jumping over entries) and chunk requests; the model is 'latest start step <= highest reported step'; "
        "non-trivial = at least two entries were in force and at least one chunk was made after a switch")


@st.composite
def case(draw):
    d = draw(qr.data())
    size = draw(st.one_of(st.integers(1, 4), st.integers(1, 12)))
    steps = draw(st.lists(st.integers(0, 30), min_size=1, max_size=5, unique=True))
    entries = []
    for s in steps:
        if draw(st.integers(0, 5)) == 3:
            spec = {"kind": "hier", "size": size, "strict": draw(st.booleans()),
                    "langs": draw(st.lists(st.sampled_from(qr.LANGS), min_size=1, max_size=3, unique=True))}
        else:
            spec = draw(qr.mixture(d["comps"], d=d))
        if draw(st.integers(0, 2)) != 1:
            spec["size"] = size
        entries.append({"start": s, "mix": spec})
    if draw(st.integers(0, 2)) == 1 and "parts" in entries[0]["mix"]:
        size = max(1, sum(entries[0]["mix"]["parts"])) if sum(entries[0]["mix"]["parts"]) < 30 else size
    ops = []
    marks = sorted({max(0, s + k) for s in steps for k in (-1, 0, 1)})
    for _ in range(draw(st.integers(1, 14))):
        ops.append(draw(st.one_of(st.just("chunk"), st.just("chunk"), st.sampled_from(marks), st.integers(0, 35))))
    return {"data": d, "size": size, "entries": entries, "ops": ops}


def build(spec):
    if spec["kind"] == "hier":
        n = len(spec["langs"])
        return HierarchicalStaticMixture(spec["size"], MixtureNode("lang", [Component([lang], 1 / n) for lang in spec["langs"]]),
                                         strict=spec["strict"])
    return qr.build(spec)


def run(c):
    entries = c["entries"]
    order = sorted(entries, key=lambda e: e["start"])
    # what each entry requests on its own at the schedule's chunk size (C04 decides that this is right)
    want = []
    for e in order:
        spec = dict(e["mix"], size=c["size"])
        m = build(spec)
        q, owner = qr.new_result(c["data"], m)
        want.append((qr.requested(q._mixture), spec.get("strict", True)))
    with sut("building and streaming a schedule"):
        sched = MixtureSchedule(c["size"], [ScheduleEntry(e["start"], build(e["mix"])) for e in entries])
        q, owner = qr.new_result(c["data"], sched, stop_on_none=False)
    eq(sched.chunk_size, c["size"], "chunk size of the schedule")
    top = 0
    seen = set()
    used = set()
    after = False
    fails = 0
    ended = False
    previous = None
    mid = -1
    labels = set()

    def force():
        idx = 0
        for i, e in enumerate(order):
            if e["start"] <= top:
                idx = i
        return idx

    for op in c["ops"]:
        if op != "chunk":
            with sut("report of a training step"):
                q._mixture.process_client_feedback(ClientFeedback(training_steps=op))
            top = max(top, op)
        now = force()
        eq({k: n for k, n in qr.requested(q._mixture).items()}, want[now][0],
           f"mixture in force after step {top} of {[e['start'] for e in order]}")
        if op != "chunk" or ended or fails > 9:
            continue
        rows, strict = want[now]
        arbitrary = not rows
        with sut("requesting a chunk"):
            try:
                chunk = next(q)
            except StopIteration:
                require(arbitrary, "the stream ended although the mixture in force is %s", rows)
                ended = True
                continue
        state = (rows, strict) if rows else None
        if mid < 0 or state != previous:
            mid += 1
            previous = state
        if chunk is None:
            fails += 1
            continue
        fails = 0
        per = qr.chunk_samples(chunk)
        got = {k: len(v) for k, v in per.items()}
        for samples in per.values():
            for s in samples:
                require(s not in seen, "sample %s handed out twice", s)
                seen.add(s)
        if arbitrary:
            require(len(got) == 1 and 0 < sum(got.values()) <= c["size"], "chunk without a mixture contains %s", got)
        elif strict:
            eq(got, rows, f"composition of the chunk at step {top} of {[e['start'] for e in order]}")
        else:
            eq(sum(got.values()), c["size"], "samples in a best-effort chunk")
            require(set(got) <= set(rows), "keys %s in a chunk of mixture %s", set(got), rows)
        eq(chunk.mixture_id, mid, "mixture id of the chunk")
        if used and now not in used:
            after = True
        used.add(now)
    if len(used) > 1 and after:
        labels.add("nt")
    if any(e["mix"]["size"] != c["size"] for e in entries):
        labels.add("other-size")
    return labels


SUBS = [Sub("schedule", case, run, quick=4000, thorough=150000, shards=8, cpu=20)]
