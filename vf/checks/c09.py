"""C09: restoring a checkpoint continues the stream exactly."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vf import job as vj
from vf import qr
from vf.core import Sub, VERIF, eq, fail, require, scratch, sut
from vf.faults import Fault

from mixtera.core.query.chunk_distributor import ChunkDistributor
from mixtera.core.query.query_result import QueryResult

RULE = ("jobs over generated query results with 1-2 groups, 1-2 nodes and 0-2 workers and a static, inferred, arbitrary, dynamic (stateful "
        "algorithm) or scheduled mixture, driven by 2-4 segments of chunk requests, feedback and mixture replacements, also over a cached result that was executed under another mixture; after each segment a "
        "checkpoint is taken with generated worker positions per node, further lost requests/feedback follow, an inconsistent checkpoint may "
        "be refused before, and the job is restored (sub 'fresh': in a new interpreter with another hash seed), at the end also from one of the older checkpoints once more; everything handed out is "
        "compared with an uninterrupted twin; (faults) checkpoints, partly overlapping, in which file accesses fail from a generated one on; "
        "non-trivial = a restore in the middle of a chunk that was followed by new chunks")


@st.composite
def ops(draw, d, dp, nodes, workers, n):
    out = []
    for _ in range(draw(st.integers(0, n))):
        k = draw(st.sampled_from(["get", "get", "get", "get", "fb", "mix"]))
        if k == "get":
            out += [["get", draw(st.integers(0, dp - 1)), draw(st.integers(0, nodes - 1)), draw(st.integers(0, workers - 1))]] * \
                draw(st.sampled_from([1, 1, 2]))
        elif k == "fb":
            out.append(["fb", draw(st.integers(0, 25)), draw(st.lists(st.integers(0, 20), min_size=1, max_size=5))])
        elif draw(st.integers(0, 2)) == 1:
            out.append(["mix", draw(vj.mixture(d))])
    return out


@st.composite
def case(draw):
    d = draw(qr.data())
    dp, nodes, workers = draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([1, 1, 2])), draw(st.integers(0, 2))
    nw = max(workers, 1)
    segs = []
    for _ in range(draw(st.integers(2, 4))):
        segs.append({"ops": draw(ops(d, dp, nodes, nw, 8)), "lost": draw(ops(d, dp, nodes, nw, 3)),
                     "pos": draw(st.lists(st.sampled_from([0, 0, 10, 40, 70, 99, 100]), min_size=dp * nodes * nw, max_size=dp * nodes * nw)),
                     "refused": draw(st.integers(0, 5)) == 3})
    segs[-1]["ops"] += [["get", i % dp, (i // dp) % nodes, i % nw] for i in range(draw(st.integers(1, 8)))]
    return {"data": d, "dp": dp, "nodes": nodes, "workers": workers, "mix": draw(vj.mixture(d)), "segs": segs,
            "cached": draw(st.sampled_from([True, False, "other"])), "other": draw(vj.mixture(d)), "server": draw(st.booleans()), "back": draw(st.one_of(st.none(), st.integers(0, 2)))}


def run(c, fresh=False):
    with scratch() as tmp:
        return drive(c, tmp, fresh)


def from_cache(path, logdir, mix):
    """What both kinds of client do when a query is found in the cache."""
    q = QueryResult.from_cache(path)
    q._query_log_dir = logdir
    if logdir is not None:
        logdir.mkdir(exist_ok=True)
    q._key_id_map = {}
    q.update_mixture(mix)
    return q


def drive(c, tmp, fresh):
    dp, nodes, nw = c["dp"], c["nodes"], max(c["workers"], 1)
    triples = [(g, n, w) for g in range(dp) for n in range(nodes) for w in range(nw)]
    labels = set()
    server = c["server"] or dp > 1 or nodes > 1 or c["workers"] > 0
    ckdir, logdir = tmp / "checkpoints", tmp / "log"
    with sut("starting a job"):
        qa, _ = qr.new_result(c["data"], vj.build(c["mix"]))
        qb, _ = qr.new_result(c["data"], vj.build(c["mix"]), log_dir=logdir)
        cache = None
        if c["cached"]:
            cache = tmp / "cached"
            cache.mkdir()
            if c["cached"] == "other":  # the query was executed before, under another mixture
                q0, _ = qr.new_result(c["data"], vj.build(c["other"]))
                q0.to_cache(cache)
                qa, qb = (from_cache(cache, x, vj.build(c["mix"])) for x in (None, logdir))
                labels.add("other-mixture")
            else:
                qb.to_cache(cache)
        a = vj.Job(ChunkDistributor(dp, nodes, c["workers"], qa, "job"))
        b = vj.Job(ChunkDistributor(dp, nodes, c["workers"], qb, "job", cached_query=cache))
    last = {}  # (group, worker) -> what the twin handed out last
    count = {t: 0 for t in triples}  # chunks received by the twin per node
    skip = {}  # (group, worker) -> position the restored job continues at
    pending = set()  # triples of the restored job which have to be given their current chunk again
    cid = None
    mid = 0
    restored = False
    records = []  # per restore: what is needed to do it once more
    for si, seg in enumerate(c["segs"]):
        # bring all nodes of a group to the same chunk before the next checkpoint
        todo = list(seg["ops"])
        n = dict(count)
        for op in todo:
            if op[0] == "get":
                n[tuple(op[1:])] += 1
        again = []
        for g, m, w in triples:
            if any(tuple(o[1:]) == (g, x, w) for o in todo if o[0] == "get" for x in range(nodes)):
                again.append(["again", g, m, w])
        final = si == len(c["segs"]) - 1
        fails_before = a.fails
        with sut(f"segment {si} of the uninterrupted job"):
            want = vj.segment(a, todo, [])
        for op_i, shown in [(x[1], x[2]) for x in want]:
            g, m, w = todo[op_i][1:]
            if shown is not None:
                count[g, m, w] += 1
        extra = []
        top = {}
        for g, m, w in triples:
            top[g, w] = max(top.get((g, w), 0), count[g, m, w])
        for g, m, w in triples:
            extra += [["get", g, m, w]] * (top[g, w] - count[g, m, w])
        # a node that lags gets cached chunks, also if the stream itself has ended
        a.fails = min(a.fails, 3)
        with sut("slow nodes of the uninterrupted job catching up"):
            more = vj.segment(a, extra, [])
        for x in more:
            require(x[2] is not None, "a chunk retained for a slow node is missing")
        prev_last = dict(last)
        for src, tr in ((todo, want), (extra, more)):
            for x in tr:
                if x[2] is not None:
                    g, m, w = src[x[1]][1:]
                    count[g, m, w] = count[g, m, w] + (1 if src is extra else 0)
        # the last chunk per worker: the newest one any of its nodes got in this segment
        per_node = {t: [] for t in triples}
        for src, tr in ((todo, want), (extra, more)):
            for x in tr:
                if x[2] is not None:
                    per_node[tuple(src[x[1]][1:])].append(x[2])
        for g, m, w in triples:
            if per_node[g, m, w]:
                last[g, w] = per_node[g, m, w][-1]

        todo_b = todo + again
        b_fails = fails_before
        if not restored:
            b.fails = b_fails
            with sut(f"segment {si}"):
                got = vj.segment(b, todo, [])
                b.fails = min(b.fails, 3)
                got_more = vj.segment(b, extra, [])
        else:
            args = {"dir": str(ckdir), "id": cid, "log": str(logdir), "ops": todo_b, "mid": mid, "pending": sorted(pending), "fails": fails_before}
            if fresh and final:
                p = subprocess.run([sys.executable, "-m", "vf.job"], input=json.dumps(args), capture_output=True, text=True, timeout=120,
                                   cwd=str(VERIF), env=dict(os.environ, PYTHONHASHSEED=str(7 + len(todo))))
                line = next((x for x in p.stdout.splitlines() if x.startswith("TRANSCRIPT ")), None)
                if line is None:
                    fail("restoring in a new process failed: %s", (p.stderr or p.stdout)[-2500:])
                got, got_more = json.loads(line[11:]), more
                labels.add("fresh")
            else:
                with sut("restoring a checkpoint and continuing"):
                    got, b = vj.resume(ckdir, cid, logdir, todo_b, mid, pending, fails_before)
                    b.fails = min(b.fails, 3)
                    got_more = vj.segment(b, extra, [])
            records.append((cid, todo_b, mid, set(pending), fails_before, want, todo, prev_last, dict(skip), extra, more))
        compare(got, want, todo, prev_last, skip, labels, pending)
        eq([x[2] for x in got_more], [x[2] for x in more], "chunks of the nodes catching up")
        if final:
            break
        touched = {(o[1], o[3]) for o in todo if o[0] == "get"}
        pending = {t for t in pending if (t[0], t[2]) not in touched}
        status = {}
        new_skip = {}
        for i, (g, m, w) in enumerate(triples):
            ch = last.get((g, w))
            lo = skip.get((g, w), 0) if (g, w) not in touched or ch is prev_last.get((g, w)) else 0
            if ch is None or (g, m, w) in pending:
                status[g, m, w] = 0
                if ch is not None:
                    new_skip[g, w] = skip[g, w]
                continue
            size = len(ch["samples"])
            pos = lo + (size - lo) * seg["pos"][i] // 100
            if seg["pos"][i] != 100:
                pos = min(pos, size - 1)
            status[g, m, w] = max(pos, lo)
            new_skip[g, w] = max(new_skip.get((g, w), 0), status[g, m, w])
        if seg["refused"] and nodes > 1 and b.fails < 3:
            refuse(b, a, dp, nodes, nw, ckdir, server, labels, last, count, pending, status, new_skip)
        skip = new_skip
        with sut("taking a checkpoint"):
            for g in range(dp):
                for m in range(nodes):
                    cid = b.dist.checkpoint(g, m, [status[g, m, w] for w in range(nw)], ckdir, server)
            mid = b.mid
            a.mid = max(a.mid, mid)
            mid = a.mid
            vj.segment(b, seg["lost"], [])
            vj.wait_done(b.dist, cid)
        pending = {(g, m, w) for g, m, w in triples if (g, w) in last}
        restored = True
    if c.get("back") is not None and len(records) > 1:
        labels.add("back")
        go_back(records[c["back"] % (len(records) - 1)], ckdir, logdir, triples, dp, nodes, nw, server, labels)
    return labels


def go_back(record, ckdir, logdir, triples, dp, nodes, nw, server, labels):
    """An older checkpoint still continues as it did the first time; the next checkpoint taken from there replaces none."""
    cid, todo_b, mid, pending, fails, want, todo, prev_last, skip, extra, more = record
    before = {p: p.read_bytes() for p in sorted(ckdir.rglob("*")) if p.is_file()}
    with sut("restoring an older checkpoint and continuing"):
        got, b = vj.resume(ckdir, cid, logdir, todo_b, mid, pending, fails)
        b.fails = min(b.fails, 3)
        got_more = vj.segment(b, extra, [])
    compare(got, want, todo, prev_last, skip, set(), pending)
    eq([x[2] for x in got_more], [x[2] for x in more], "chunks of the nodes catching up after going back")
    with sut("taking a checkpoint after going back"):
        for g in range(dp):
            for m in range(nodes):
                new = b.dist.checkpoint(g, m, [0] * nw, ckdir, server)
        vj.wait_done(b.dist, new)
    require(all(ckdir / new not in p.parents for p in before), "the checkpoint %s taken after going back to %s replaces an existing one",
            new, cid)
    for p, data in before.items():
        require(p.is_file() and p.read_bytes() == data, "checkpoint file %s changed after going back to %s", p.name, cid)


def refuse(b, a, dp, nodes, nw, ckdir, server, labels, last, count, pending, status, new_skip):
    """A checkpoint with the nodes of a group at different chunks is refused and changes nothing."""
    g, w = 0, 0
    if any(t[0] == g and t[2] == w for t in pending):
        return
    with sut("requests around a refused checkpoint"):
        one = vj.segment(a, [["get", g, 0, w]], [])[0][2]
        two = vj.segment(b, [["get", g, 0, w]], [])[0][2]
    eq(two, one, "chunk before a refused checkpoint")
    if one is None:
        return
    refused = False
    try:
        for x in range(dp):
            for m in range(nodes):
                b.dist.checkpoint(x, m, [0] * nw, ckdir, server)
    except RuntimeError:
        refused = True
    require(refused, "a checkpoint was accepted although the nodes are at different chunks")
    for m in range(1, nodes):
        with sut("requests around a refused checkpoint"):
            one = vj.segment(a, [["get", g, m, w]], [])[0][2]
            two = vj.segment(b, [["get", g, m, w]], [])[0][2]
        eq(two, one, "chunk after a refused checkpoint")
    for m in range(nodes):
        count[g, m, w] += 1
        status[g, m, w] = 0
    new_skip[g, w] = 0
    last[g, w] = one
    labels.add("refused")


def compare(got, want, todo, last, skip, labels, pending):
    again = [x for x in got if x[0] == "again"]
    plain = [x for x in got if x[0] == "op"]
    resumed_mid = False
    for _, g, n, w, shown in again:
        ref = last[g, w]
        require(shown is not None, "group %s node %s worker %s: the current chunk is not handed out again", g, n, w)
        k = skip.get((g, w), 0)
        eq(shown["samples"], ref["samples"][k:], f"remainder from sample {k} on of the current chunk of group {g} node {n} worker {w}")
        eq({f: v for f, v in shown.items() if f != "samples"}, {f: v for f, v in ref.items() if f != "samples"},
           f"current chunk of group {g} node {n} worker {w}")
        resumed_mid = resumed_mid or 0 < k < len(ref["samples"])
    eq(len(plain), len(want), "number of answers")
    for x, y in zip(plain, want):
        eq(x[2], y[2], f"chunk for group/node/worker {todo[y[1]][1:]} (operation {y[1]})")
    if resumed_mid and any(x[2] is not None for x in plain):
        labels.add("nt")
    if again:
        labels.add("restored")


@st.composite
def fault_case(draw):
    d = draw(qr.data())
    dp, workers = draw(st.sampled_from([1, 1, 2])), draw(st.integers(0, 2))
    nw = max(workers, 1)
    rounds = []
    for _ in range(draw(st.integers(2, 4))):
        rounds.append({"ops": draw(ops(d, dp, 1, nw, 5)), "wait": draw(st.integers(0, 3)) > 0,
                       "pos": draw(st.lists(st.sampled_from([0, 30, 70, 100]), min_size=dp * nw, max_size=dp * nw)),
                       "fault": draw(st.one_of(st.none(), st.integers(1, 10), st.integers(1, 40)))})
    return {"data": d, "dp": dp, "workers": workers, "mix": draw(vj.mixture(d)), "cached": draw(st.booleans()), "rounds": rounds,
            "end": draw(ops(d, dp, 1, nw, 5))}


def run_faults(c):
    with scratch() as tmp:
        return faults(c, tmp)


def faults(c, tmp):
    dp, nw = c["dp"], max(c["workers"], 1)
    triples = [(g, 0, w) for g in range(dp) for w in range(nw)]
    ckdir, logdir = tmp / "checkpoints", tmp / "log"
    labels = set()
    with sut("starting a job"):
        qa, _ = qr.new_result(c["data"], vj.build(c["mix"]))
        qb, _ = qr.new_result(c["data"], vj.build(c["mix"]), log_dir=logdir)
        cache = None
        if c["cached"]:
            cache = tmp / "cached"
            cache.mkdir()
            qb.to_cache(cache)
        a = vj.Job(ChunkDistributor(dp, 1, c["workers"], qa, "job"))
        b = vj.Job(ChunkDistributor(dp, 1, c["workers"], qb, "job", cached_query=cache))
    done_ops, shown, last, records = [], {}, {}, []

    def go(todo):
        with sut("a job whose checkpoints fail"):
            want, got = vj.segment(a, todo, []), vj.segment(b, todo, [])
        require([x[1:] for x in got] == [x[1:] for x in want], "after a failed checkpoint: chunks %s, expected %s", got, want)
        for _, i, chunk in want:
            shown[len(done_ops) + i] = chunk
            if chunk is not None:
                last[todo[i][1], todo[i][3]] = chunk
        done_ops.extend(todo)

    def finish(rec, fault):
        try:
            vj.wait_done(b.dist, rec["cid"])
            rec["ok"] = True
        except RuntimeError as e:
            require(fault.fired(), "a checkpoint failed without a fault: %s", e)
            labels.add("failed")

    open_ = None
    for r in c["rounds"]:
        go(r["ops"])
        if open_ and open_[1].n:  # (one fault at a time)
            finish(*open_)
            open_ = None
        rec = {"at": len(done_ops), "mid": b.mid, "fails": a.fails, "last": dict(last), "pos": {}, "ok": False, "cid": None}
        for i, (g, _, w) in enumerate(triples):
            size = len(last[g, w]["samples"]) if (g, w) in last else 0
            rec["pos"][g, w] = size if r["pos"][i] == 100 else min(size * r["pos"][i] // 100, max(size - 1, 0))
        if open_ and r["fault"]:
            with sut("taking a checkpoint"):
                finish(*open_)
            open_ = None
        fault = Fault(ckdir, r["fault"])
        try:
            for g in range(dp):
                rec["cid"] = b.dist.checkpoint(g, 0, [rec["pos"][g, w] for w in range(nw)], ckdir, True)
        except OSError as e:
            require(fault.fired(), "taking a checkpoint failed without a fault: %s", e)
            labels.add("refused")
            continue
        except Exception as e:  # noqa: BLE001
            fail("taking a checkpoint failed: %s: %s", type(e).__name__, e)
        finally:
            fault.lift()
        records.append(rec)
        if open_:
            with sut("taking a checkpoint"):
                finish(*open_)
                labels.add("overlapping")
            open_ = None
        if r["wait"]:
            finish(rec, fault)
        else:
            open_ = (rec, fault)
    go(c["end"])
    if open_:
        finish(*open_)
    for rec in records:
        tail = done_ops[rec["at"]:]
        pending = {t for t in triples if (t[0], t[2]) in rec["last"]}
        todo = tail + [["again", *t] for t in triples]
        try:
            got, _ = vj.resume(ckdir, rec["cid"], None, todo, rec["mid"], pending, rec["fails"])
        except Exception as e:  # noqa: BLE001
            require(not rec["ok"], "the completed checkpoint %s cannot be restored: %s: %s", rec["cid"], type(e).__name__, e)
            continue
        want = [["op", i - rec["at"], shown[i]] for i in sorted(shown) if i >= rec["at"]]
        compare(got, want, tail, rec["last"], rec["pos"], set(), pending)
        if rec["ok"] and "failed" in labels | {x.replace("refused", "failed") for x in labels}:
            labels.add("nt")
    return labels


SUBS = [
    Sub("restore", case, run, quick=700, thorough=25000, shards=8, cpu=60),
    Sub("fresh", case, lambda c: run(c, fresh=True), quick=24, thorough=600, shards=8, cpu=60, wall=200),
    Sub("faults", fault_case, run_faults, quick=160, thorough=5000, shards=8, cpu=60),
]
