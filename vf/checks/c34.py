"""C34: a process killed at any point leaves a usable and correct directory behind."""
import shutil

from hypothesis import strategies as st

from vf import crash, job, qr, world
from vf.core import Sub, eq, fail, in_child, require, scratch, sut

from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs

RULE = ("a program over an empty directory (open, register and remove generated datasets, execute queries as jobs, draw chunks, take "
        "checkpoints) whose process group is killed at a generated point (any executed source line of the code under test or any "
        "access to a file of the directory, also in the process that persists a checkpoint) within a generated operation, or whose "
        "directory is copied in every state it has at such a point (all of these are judged, 1-4 in full); then other processes "
        "open the directory and everything in it is compared with the model and with a run that was not killed; non-trivial = the "
        "process was killed while it registered, removed, executed a query or wrote a checkpoint and something had been stored before")


@st.composite
def _case(draw):
    n = draw(st.integers(1, 3))
    specs = [dict(draw(world.dataset(i, max_files=2, max_runs=3, max_len=4)), name=f"ds{i}") for i in range(n)]
    query = st.one_of(st.just([[]]), world.query(specs))
    ops, live, jobs = [["reg", 0]], [0], 0
    for _ in range(draw(st.integers(1, 7))):
        kind = draw(st.sampled_from(["reg", "rm", "exec", "exec", "ckpt", "ckpt", "take", "reopen"]))
        if kind == "reg" and len(live) < n:
            i = next(i for i in range(n) if i not in live)
            live.append(i)
            ops.append(["reg", i])
        elif kind == "rm" and live:
            i = draw(st.sampled_from(live))
            live.remove(i)
            ops.append(["rm", i])
        elif kind == "exec" or (kind in ("ckpt", "take") and not jobs):
            ops.append(["exec", draw(query), draw(world.mixture(specs, dynamic=False, max_size=5))])
            jobs += 1
        elif kind == "take":
            ops.append(["take", draw(st.integers(0, jobs - 1)), draw(st.integers(1, 3))])
        elif kind == "ckpt":
            j = draw(st.integers(0, jobs - 1))
            ops.append(["take", j, draw(st.integers(0, 2))])
            ops.append(["ckpt", j, draw(st.sampled_from([0, 0, 40, 100]))])
        elif kind == "reopen":
            ops.append(["reopen"])
    heavy = [i for i, op in enumerate(ops) if op[0] in ("reg", "rm", "exec", "ckpt")]
    at = draw(st.one_of(st.sampled_from(heavy[::-1]), st.sampled_from(heavy[-2:]), st.integers(-1, len(ops) - 1)))
    if at > 0 and ops[at][0] in ("reg", "rm") and draw(st.integers(0, 3)):
        # Something cached just before, which must not be used for another state of the database
        if not any(op[0] == "exec" for op in ops[at:]):  # as the last job, such that the others keep their numbers
            ops.insert(at, ["exec", [[]], {"kind": "arbitrary", "size": draw(st.integers(1, 4))}])
            at += 1
    return {"specs": specs, "ops": ops, "at": at, "point": draw(st.integers(0, 9999)), "nth": draw(st.sampled_from([1, 1, 1, 1, 2, 3, 5])),
            "workers": draw(st.integers(0, 1)), "files": draw(st.booleans())}


def _open(d):
    c = MixteraClient.from_directory(d)
    for n, cls in world.PARSERS.items():
        c.register_metadata_parser(n, cls)
    return c


def _drain(j, first=()):
    out = list(first)
    while (shown := j.request(0, 0, 0)) is not None or j.fails < 4:
        if shown is not None:
            out.append(shown)
        require(len(out) < 500, "the stream does not end")
    return out


def _program(case, d, where, drain):
    def program(points, tell):
        client = None
        jobs, last, drawn = [], {}, {}
        for i in range(-1, len(case["ops"])):
            op = case["ops"][i] if i >= 0 else ["open"]
            tell(["begin", i])
            if i == case["at"]:
                points.arm()
            res = None
            if op[0] == "open":
                client = _open(d)
            elif op[0] == "reopen":
                client._mdc._connection.close()
                running = client._training_query_map
                client = _open(d)
                client._training_query_map.update(running)
            elif op[0] == "reg":
                spec, (loc, _) = case["specs"][op[1]], where[op[1]]
                ok = client.register_dataset(spec["name"], loc, world.dtype(spec), world.func(spec), spec["parser"])
                require(ok is True, "registering %r: %r", spec["name"], ok)
            elif op[0] == "rm":
                require(client.remove_dataset(case["specs"][op[1]]["name"]) is True, "removing a dataset failed")
            elif op[0] == "exec":
                name = f"job{len(jobs)}"
                try:
                    ok = client.execute_query(world.build_query(name, op[1]), QueryExecutionArgs(mixture=job.build(op[2]), num_workers=case["workers"]))
                except Exception as e:
                    ok = type(e).__name__
                jobs.append(job.Job(client._get_query_chunk_distributor(name)) if ok is True else None)
                res = ok
            elif op[0] == "take" and jobs[op[1]] is not None:
                res = [x for x in (jobs[op[1]].request(0, 0, 0) for _ in range(op[2])) if x is not None]
                if res:
                    last[op[1]] = res[-1]
                    drawn[op[1]] = drawn.get(op[1], 0) + len(res)
            elif op[0] == "ckpt" and jobs[op[1]] is not None:
                j = jobs[op[1]]
                pos = len(last[op[1]]["samples"]) * op[2] // 100 if op[1] in last else 0
                tell(["checkpoint", op[1], drawn.get(op[1], 0), pos])
                cid = client.checkpoint(f"job{op[1]}", 0, 0, [pos], case["workers"] > 0)
                job.wait_done(j.dist, cid)
                res = cid
            if i == case["at"]:
                points.disarm()
            tell(["end", i, res])
        if drain:
            for n, j in enumerate(jobs):
                if j is not None:
                    j.fails = 0
                    tell(["rest", n, _drain(j)])
    return program


def _content(q):
    """The samples of a result: (file, row) -> properties."""
    out = {}
    for key, ds in q._chunker_index.items():
        props = {k: tuple(sorted(v)) for k, v in key.properties.items()}
        for fs in ds.values():
            for fid, ivs in fs.items():
                for s, e in ivs:
                    for i in range(s, e):
                        require((q.file_path[fid], i) not in out, "a sample is in the result twice")
                        out[q.file_path[fid], i] = props
    return out


class Verify:
    """Another process works with the directory."""

    def __init__(self, case, d, where, live, doubtful):
        self.case, self.where, self.n = case, where, 0
        self.live, self.doubtful = set(live), doubtful
        with sut("opening the directory"):
            self.client = _open(d)

    def rows(self, i):
        spec, (_, paths) = self.case["specs"][i], self.where[i]
        return {(p, r): world.props_for(spec["parser"], meta) for fi, p in enumerate(paths)
                for r, (_, meta) in enumerate(world.rows_of(spec, fi))}

    def execute(self, query, cached):
        """A new job's view of a query."""
        self.n += 1
        name = f"after{self.n}"
        self.client._query_cache.enabled = cached
        try:
            ok = self.client.execute_query(world.build_query(name, query),
                                           QueryExecutionArgs(mixture=job.build({"kind": "arbitrary", "size": 3})))
        except Exception as e:
            if isinstance(e, OSError) or "duckdb" not in type(e).__module__:
                raise
            return type(e).__name__, None
        finally:
            self.client._query_cache.enabled = True
        require(ok is True, "executing a query: %r", ok)
        j = job.Job(self.client._get_query_chunk_distributor(name))
        return _content(j.q), _drain(j)

    def check(self, what):
        with sut(f"{what}: list_datasets"):
            names = self.client.list_datasets()
        certain = {self.case["specs"][i]["name"] for i in self.live}
        maybe = {self.case["specs"][i]["name"] for i in self.doubtful}
        require(sorted(names) == sorted(set(names)) and certain <= set(names) <= certain | maybe,
                "%s: datasets %s are registered, want %s (and maybe %s)", what, names, certain, maybe)
        queries = [[[]]]
        for op in self.case["ops"]:
            if op[0] == "exec" and op[1] not in queries:
                queries.append(op[1])
        for n, q in enumerate(queries):
            with sut(f"{what}: query {q}"):
                fresh = self.execute(q, False)
                for again in ("first", "second"):
                    got = self.execute(q, True)
                    eq(got[0], fresh[0], f"{what}: result of {q} through the cache ({again} time) compared to executing it afresh")
                    eq(got[1], fresh[1], f"{what}: chunks of {q} through the cache ({again} time) compared to executing it afresh")
            require(n or not self.live or not isinstance(fresh[0], str), "%s: selecting everything raised %s", what, fresh[0])
            if n == 0 and not isinstance(fresh[0], str):
                want = {k: v for i in self.live for k, v in self.rows(i).items()}
                extra = {k: v for i in self.doubtful for k, v in self.rows(i).items()}
                missing = [k for k in want if k not in fresh[0]]
                require(not missing, "%s: samples %s of registered datasets are missing", what, missing[:5])
                for k, v in fresh[0].items():
                    require(k in want or k in extra, "%s: there is a sample %s of no registered dataset", what, k)
                    eq(v, want[k] if k in want else extra[k], f"{what}: properties of sample {k}")

    def settle(self):
        """The interrupted registration or removal is repeated."""
        others = [i for i in self.where if i not in self.live | self.doubtful][:1]
        for i in sorted(self.doubtful) + others:
            spec, (loc, _) = self.case["specs"][i], self.where[i]
            with sut("registering datasets after the interruption"):
                if i not in others and self.client.check_dataset_exists(spec["name"]):
                    require(self.client.remove_dataset(spec["name"]) is True, "the dataset cannot be removed")
                self.doubtful = self.doubtful - {i}
                if i not in others:
                    self.check("after removing the interrupted dataset")
                ok = self.client.register_dataset(spec["name"], loc, world.dtype(spec), world.func(spec), spec["parser"])
                require(ok is True, "the dataset cannot be registered: %r", ok)
            self.live.add(i)
            self.check("after registering a dataset")


def _restore(case, d, n, cid, drawn, pos, chunks, what, complete=True):
    """Restores a checkpoint, compares the rest of the stream, and checkpoints the restored job again."""
    client = _open(d)
    name = f"job{n}"
    if not complete:
        try:
            client.restore_checkpoint(name, cid)
        except Exception:
            return False
    with sut(what):
        client.restore_checkpoint(name, cid)
        j = job.Job(client._get_query_chunk_distributor(name))
        want = list(chunks[max(drawn - 1, 0):])
        if drawn:
            want[0] = dict(want[0], samples=want[0]["samples"][pos:])
        got = []
        if want:
            got.append(j.request(0, 0, 0))
            eq(got, want[:1], f"{what}: first chunk")
        status = len(got[0]["samples"]) + (pos if drawn else 0) if got else 0
        again = client.checkpoint(name, 0, 0, [status], case["workers"] > 0)
        job.wait_done(j.dist, again)
        got = _drain(j, got)
        eq(got, want, f"{what}: chunks")
    with sut(f"{what}: restoring the next checkpoint {again}"):
        client.restore_checkpoint(name, again)
        j = job.Job(client._get_query_chunk_distributor(name))
        if want:
            want[0] = dict(want[0], samples=[])
        eq(_drain(j), want, f"{what}: chunks after the next checkpoint {again}")
    return True


def _told(case, told, ends, killed):
    """What the parent knows about the state of a program: live and doubtful datasets, checkpoints, and the interrupted operation."""
    live, saved, ckpt, begun, interrupted = set(), [], None, None, None
    for x in told:
        if x[0] == "begin":
            begun, ckpt = x[1], None
        elif x[0] == "checkpoint":
            ckpt = x[1:]
        elif x[0] == "end":
            op = case["ops"][x[1]] if x[1] >= 0 else ["open"]
            eq(x[2], ends[x[1]], f"{op} in the second run")
            if op[0] == "reg":
                live.add(op[1])
            elif op[0] == "rm":
                live.discard(op[1])
            elif op[0] == "ckpt" and ckpt:
                saved.append([ckpt[0], x[2], *ckpt[1:]])
            begun = None
    doubtful = set()
    if killed and begun is not None:
        interrupted = case["ops"][begun] if begun >= 0 else ["open"]
        if interrupted[0] in ("reg", "rm"):
            doubtful = {interrupted[1]}
            live -= doubtful
    return live, doubtful, saved, ckpt, begun, interrupted


def _judge(case, d, where, chunks, known, what, labels, deep=True):
    live, doubtful, saved, ckpt, begun, op = known
    if op is not None:
        labels.add("killed: " + op[0])
        if op[0] in ("reg", "rm", "exec", "ckpt") and begun > 0:
            labels.add("nt")

    def verify():
        v = Verify(case, d, where, live, doubtful)
        v.check(what)
        if deep:
            v.settle()

    try:
        in_child(verify)
        if op is not None and op[0] == "ckpt" and ckpt:
            n, drawn, pos = ckpt
            for path in sorted((d / "checkpoints" / f"job{n}").glob("chkpnt_*")):
                cid = path.name
                if [n, cid] in ([s[0], s[1]] for s in saved):
                    continue
                # it may be refused, but must not continue anywhere else
                ok = in_child(lambda: _restore(case, d, n, cid, drawn, pos, chunks[n], f"{what}: restoring the interrupted {cid} of job{n}",
                                               complete=False))
                labels.add("interrupted checkpoint restored" if ok else "interrupted checkpoint refused")
        for n, cid, drawn, pos in saved if deep else ():
            in_child(lambda: _restore(case, d, n, cid, drawn, pos, chunks[n], f"{what}: restoring {cid} of job{n}"))
            labels.add("restored")
    except Exception as e:
        e.args = (f"{what} in {op}: {e}",)
        raise


def _prepare(case, root):
    d = root / "mixtera"
    d.mkdir()
    (root / "data").mkdir()
    return d, in_child(lambda: {i: world.write(root / "data", s) for i, s in enumerate(case["specs"])})


def _results(case, told):
    ends = {x[1]: x[2] for x in told if x[0] == "end"}
    rest = {x[1]: x[2] for x in told if x[0] == "rest"}
    return ends, {n: [c for i, op in enumerate(case["ops"]) if op[0] == "take" and op[1] == n for c in ends[i] or []] + rest[n]
                  for n in rest}


def _run(case):
    labels = set()
    with scratch() as root:
        d, where = _prepare(case, root)
        record = root / "points"
        told, _ = crash.run(_program(case, d, where, True), d, record=record)
        points = record.read_text().splitlines() if record.exists() else []
        if case["files"]:
            points = [p for p in points if p.startswith(("open", "os.", "shutil."))] or points
        if not points:
            return labels
        ends, chunks = _results(case, told)
        shutil.rmtree(d)
        d.mkdir()
        point = points[case["point"] % len(points)]
        told, killed = crash.run(_program(case, d, where, False), d, target=(point, case["nth"]))
        if not killed:
            labels.add("point not reached")
        _judge(case, d, where, chunks, _told(case, told, ends, killed), f"killed at {point} ({case['nth']})" if killed else "not killed", labels)
    return labels


def _states(case):
    """As above, but all states in which the operation may leave the files are collected and judged (some of them in full)."""
    labels = set()
    with scratch() as root:
        d, where = _prepare(case, root)
        (root / "states").mkdir()
        told, _ = crash.run(_program(case, d, where, True), d, states=root / "states")
        ends, chunks = _results(case, told)
        states = sorted(p for p in (root / "states").iterdir() if p.suffix == "")
        until = next(i for i, x in enumerate(told) if x == ["end", case["at"], ends[case["at"]]])
        n = len(states)
        labels.add(f"states: {n if n < 4 else '4-9' if n < 10 else '10-19' if n < 20 else '20+'}")
        deep = {(case["point"] + k * n // case["judge"]) % n for k in range(case["judge"])} if n else ()
        for i in range(n):
            if n > 40 and i not in deep and i % (n // 20):
                continue
            shutil.rmtree(d)
            states[i].rename(d)
            known = _told(case, told[:until], ends, True)
            _judge(case, d, where, chunks, known, f"killed at {states[i].with_suffix('.point').read_text()} (state {i} of {n})", labels, i in deep)
    return labels


@st.composite
def _state_case(draw):
    return dict(draw(_case()), judge=draw(st.integers(1, 4)))


SUBS = [Sub("states", _state_case, _states, quick=80, thorough=2500, shards=8, wall=200, cpu=120),
        Sub("killed", _case, _run, quick=60, thorough=2500, shards=8, wall=100, cpu=60)]
