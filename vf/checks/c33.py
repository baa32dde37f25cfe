"""C33: the mixture log tells which mixture every chunk was requested with."""
import json

from hypothesis import strategies as st

from vf import job as vj
from vf import qr
from vf.core import Sub, eq, fail, require, scratch, sut
from vf.faults import Fault

from mixtera.core.query.chunk_distributor import ChunkDistributor

RULE = ("jobs over generated query results with static, inferred, arbitrary, dynamic and scheduled mixtures and a log directory, driven by 6-50 "
        "operations: chunks requested (also past the end), feedback, mixture replacements, checkpoints, and restores of any checkpoint taken "
        "so far; the files are read after every operation; (faults) accesses to the log fail for generated periods, chunks compared with a job "
        "without a log; non-trivial = the requested composition changed after the first chunk, or a chunk handed out after such a fault")


@st.composite
def _case(draw):
    d = draw(qr.data(max_len=20))
    ops = []
    step = 0
    for _ in range(draw(st.integers(4, 30))):
        k = draw(st.sampled_from(["get"] * 5 + ["fb"] * 3 + ["mix", "ckpt", "restore"]))
        if k == "get":
            ops += [["get"]] * draw(st.sampled_from([1, 1, 2, 4]))
        elif k == "fb":
            step += draw(st.sampled_from([0, 1, 2, 6]))
            ops.append(["fb", step, draw(st.lists(st.integers(0, 20), min_size=1, max_size=5))])
        elif k == "mix":
            ops.append(["mix", draw(vj.mixture(d))])
        elif k == "restore":
            ops.append(["restore", draw(st.integers(0, 3))])
        else:
            ops.append(["ckpt"])
    return {"data": d, "mix": draw(vj.mixture(d)), "ops": ops}


def _rows(mixture):
    return {str(k): n for k, n in mixture.mixture_in_rows().items() if n}


def _read(logdir, q, what):
    with open(logdir / "mixture.log", encoding="utf-8") as f:
        text = f.read()
    try:
        log = json.loads(text)
    except ValueError as e:
        fail("%s: the mixture log is not well-formed: %s in %r", what, e, text[:200])
    parts = [v for v in log.values() if isinstance(v, dict)]
    eq(len(parts), 1, f"{what}: tables in the mixture log")
    return {int(k): {m: n for m, n in v.items() if n} for k, v in parts[0].items()}


def _run(case):
    labels = set()
    with scratch() as tmp:
        logdir, ckdir = tmp / "log", tmp / "checkpoints"
        with sut("starting a job"):
            q, _ = qr.new_result(case["data"], vj.build(case["mix"]), log_dir=logdir)
            job = vj.Job(ChunkDistributor(1, 1, 0, q, "job"))
        want = []  # composition requested of each chunk
        saved = []  # (checkpoint id, number of chunks, last mixture id)
        again = None  # a restored job hands out its current chunk again
        for i, op in enumerate(case["ops"]):
            what = f"operation {i} ({op[0]})"
            with sut(what):
                if op[0] == "get":
                    rows = _rows(job.q._mixture)
                    shown = job.request(0, 0, 0)
                    if again and shown is not None:
                        again = None
                    elif shown is not None:
                        want.append(rows)
                elif op[0] == "ckpt":
                    if not want or again:
                        continue
                    cid = job.dist.checkpoint(0, 0, [0], ckdir, False)
                    vj.wait_done(job.dist, cid)
                    saved.append((cid, list(want), job.mid))
                elif op[0] == "restore":
                    if not saved:
                        continue
                    cid, want, mid = saved[op[1] % len(saved)]
                    want = list(want)
                    job = vj.Job(ChunkDistributor.from_checkpoint(ckdir, cid, "job", logdir))
                    job.mid, again = mid, True
                    labels.add("restored")
                else:
                    job.op(op)
            if not want:
                continue
            log = _read(logdir, job.q, what)
            for c, rows in enumerate(want):
                starts = [s for s in log if s <= c]
                require(starts, "%s: chunk %s is not covered by the mixture log %s", what, c, log)
                eq(log[max(starts)], rows, f"{what}: composition of chunk {c} of {len(want)} according to the mixture log")
            require(max(log) <= len(want), "%s: the mixture log %s goes beyond the %s chunks produced", what, sorted(log), len(want))
            idx = (logdir / "chunk.idx").read_text(encoding="utf-8")
            eq(idx.strip(), str(len(want) - 1), f"{what}: last chunk handed out")
            if any(r != want[0] for r in want):
                labels.add("nt")
    return labels


@st.composite
def _fault_case(draw):
    d = draw(qr.data(max_len=20))
    ops = []
    step = 0
    for _ in range(draw(st.integers(3, 20))):
        k = draw(st.sampled_from(["get"] * 5 + ["fb"] * 2 + ["mix"] + ["fault"] * 2 + ["lift"]))
        if k == "fb":
            step += draw(st.sampled_from([0, 1, 2, 6]))
            ops.append(["fb", step, draw(st.lists(st.integers(0, 20), min_size=1, max_size=5))])
        elif k == "mix":
            ops.append(["mix", draw(vj.mixture(d))])
        elif k == "fault":
            ops.append(["fault", draw(st.integers(1, 3))])
        else:
            ops.append([k])
    return {"data": d, "mix": draw(vj.mixture(d)), "ops": ops}


def _run_faults(case):
    """The log cannot be written for a while: chunks are as without a log, and the log is right when it can be written again."""
    labels = set()
    with scratch() as tmp:
        logdir = tmp / "log"
        with sut("starting a job"):
            q, _ = qr.new_result(case["data"], vj.build(case["mix"]), log_dir=logdir)
            job = vj.Job(ChunkDistributor(1, 1, 0, q, "job"))
            plain, _ = qr.new_result(case["data"], vj.build(case["mix"]))
            twin = vj.Job(ChunkDistributor(1, 1, 0, plain, "job"))
        want = []
        fault = None
        hit = False
        try:
            for i, op in enumerate(case["ops"] + [["lift"], ["get"], ["get"]]):
                what = f"operation {i} ({op[0]})"
                if op[0] in ("fault", "lift"):
                    if fault is not None:
                        fault.lift()
                    fault = Fault(logdir, op[1]) if op[0] == "fault" else None
                    continue
                if op[0] != "get":
                    with sut(what):
                        job.op(op)
                        twin.op(op)
                    continue
                rows = _rows(job.q._mixture)
                try:
                    shown = job.request(0, 0, 0)
                except OSError:
                    require(fault is not None and fault.fired(), "%s: requesting a chunk failed without a fault", what)
                    labels.add("refused")
                    continue
                if fault is not None and fault.fired() and not hit:
                    hit = True
                    labels.add("fault")
                with sut(what):
                    eq(shown, twin.request(0, 0, 0), f"{what}: chunk handed out after faults of the log, and without a log")
                if shown is None:
                    continue
                want.append(rows)
                if hit:
                    labels.add("nt")
                if fault is not None:
                    continue
                log = _read(logdir, job.q, what)
                for c, rows in enumerate(want):
                    starts = [s for s in log if s <= c]
                    require(starts, "%s: chunk %s is not covered by the mixture log %s", what, c, log)
                    eq(log[max(starts)], rows, f"{what}: composition of chunk {c} of {len(want)} according to the mixture log")
                idx = (logdir / "chunk.idx").read_text(encoding="utf-8")
                eq(idx.strip(), str(len(want) - 1), f"{what}: last chunk handed out")
        finally:
            if fault is not None:
                fault.lift()
    return labels


SUBS = [Sub("log", _case, _run, quick=500, thorough=10000), Sub("faults", _fault_case, _run_faults, quick=300, thorough=6000)]
