"""C28: forked workers sharing a query result never share a chunk."""
import contextlib
import json
import os
import select
import signal
import socket
import time

from hypothesis import strategies as st

from vf import job, qr
from vf.core import HarnessError, Sub, Violation, _from_repo, _shape, require, sut, tb_tail

RULE = ("query results of C03's generator under any mixture (none, static, inferred, schedule, dynamic), 0-3 chunks drawn before 2-4 "
        "workers are forked; then 0-12 rounds in which a generated set of workers (and possibly the parent) draws one chunk each, one "
        "after the other or at the same time, workers forked in the middle, and finally all of them draining the rest concurrently "
        "(with generated pauses); non-trivial = at least 2 workers got 2 or more chunks between them and one of them skipped a chunk")
ASSUMPTIONS = ["interleavings of the concurrent rounds are whatever the operating system schedules (with generated pauses before the "
               "requests); the sequential rounds are fully controlled"]
LIMIT = 120


@st.composite
def _case(draw):
    d = draw(qr.data())
    n = draw(st.integers(2, 4))
    rounds = []
    for _ in range(draw(st.integers(0, 12))):
        ws = draw(st.lists(st.integers(0, n), min_size=1, max_size=n, unique=True))  # n is the parent
        rounds.append([draw(st.booleans()), ws])
    return {"data": d, "mix": draw(job.mixture(d)), "stop": draw(st.booleans()), "workers": n, "pre": draw(st.integers(0, 3)),
            "rounds": rounds, "late": draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)),
            "pauses": draw(st.lists(st.integers(0, 3), min_size=n, max_size=n)), "parent": draw(st.booleans())}


def _draw(q):
    try:
        chunk = next(q)
    except StopIteration:
        return None
    if chunk is None:
        return None
    shown = job.show(chunk)
    shown["samples"] = job.samples(chunk)
    return job.jsonable(shown)


def _safe(q):
    try:
        return ["ok", _draw(q)]
    except Violation as e:
        return ["violation", str(e)]
    except Exception as e:  # noqa: BLE001
        return ["violation" if _from_repo(e) or _shape(e) else "harness", f"{type(e).__name__}: {e}\n{tb_tail(e, 8)}"]


class Worker:
    def __init__(self, q):
        self.sock, other = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                self.sock.close()
                f = other.makefile("rw")
                for line in f:
                    cmd = json.loads(line)
                    if cmd[0] == "one":
                        out = [_safe(q)]
                    else:
                        out = []
                        while len(out) <= cmd[2]:
                            time.sleep(cmd[1] / 2000)
                            out.append(_safe(q))
                            if out[-1][0] != "ok" or out[-1][1] is None:
                                break
                    f.write(json.dumps(out) + "\n")
                    f.flush()
            finally:
                os._exit(0)
        other.close()
        self.buf = b""

    def send(self, *cmd):
        self.sock.sendall(json.dumps(cmd).encode() + b"\n")

    def recv(self):
        t0 = time.monotonic()
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.sock], [], [], 1)
            if r:
                part = self.sock.recv(1 << 16)
                require(part, "a worker died")
                self.buf += part
            else:
                require(time.monotonic() - t0 < LIMIT, "a worker waits forever for its next chunk")
        line, self.buf = self.buf.split(b"\n", 1)
        out = []
        for kind, value in json.loads(line):
            if kind == "harness":
                raise HarnessError(value)
            require(kind == "ok", "a worker fails: %s", value)
            out.append(value)
        return out

    def stop(self):
        self.sock.close()
        with contextlib.suppress(ProcessLookupError):
            os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def _run(case):
    d = case["data"]
    with sut("the sequential stream"):
        q, owner = qr.new_result(d, job.build(case["mix"]), None, case["stop"])
        stream = []
        while (c := _draw(q)) is not None:
            stream.append(c)
            require(len(stream) <= len(owner), "more chunks than samples")
    position = {json.dumps(c["content"]): i for i, c in enumerate(stream)}
    n = case["workers"]
    with sut("the shared result"):
        q, _ = qr.new_result(d, job.build(case["mix"]), None, case["stop"])
    got = {}  # stream position -> worker
    lists = {i: [] for i in range(n + 1)}
    ended = set()

    def take(w, chunk):
        if chunk is None:
            ended.add(w)
            return
        key = json.dumps(chunk["content"])
        require(key in position, "worker %s got a chunk that is not in the sequential stream: %s", w, chunk["content"])
        pos = position[key]
        require(chunk == stream[pos], "chunk %s differs from the one in the sequential stream: %s, %s", pos, chunk, stream[pos])
        require(pos not in got, "chunk %s handed out to worker %s and to worker %s", pos, got.get(pos), w)
        require(not lists[w] or lists[w][-1] < pos, "worker %s got chunk %s after chunk %s", w, pos, lists[w][-1:])
        require(w not in ended, "worker %s got a chunk after the end", w)
        got[pos] = w
        lists[w].append(pos)

    def own():
        kind, value = _safe(q)
        if kind == "harness":
            raise HarnessError(value)
        require(kind == "ok", "the parent fails: %s", value)
        take(n, value)

    workers = {}
    try:
        for _ in range(case["pre"]):
            own()
        for w in range(n):
            if w not in case["late"]:
                workers[w] = Worker(q)
        for parallel, ws in case["rounds"]:
            ws = [w for w in ws if w not in ended]
            for w in ws:
                if w < n and w not in workers:
                    workers[w] = Worker(q)
            if parallel:
                for w in ws:
                    if w < n:
                        workers[w].send("one")
                for w in ws:
                    if w == n:
                        own()
                for w in ws:
                    if w < n:
                        take(w, workers[w].recv()[0])
            else:
                for w in ws:
                    if w == n:
                        own()
                    else:
                        before = len(got)
                        workers[w].send("one")
                        take(w, workers[w].recv()[0])
                        if w not in ended:
                            require(before in got and got[before] == w, "worker %s got chunk %s when chunk %s was next", w,
                                    lists[w][-1], before)
        for w in range(n):
            if w not in workers:
                workers[w] = Worker(q)
        active = [w for w in range(n) if w not in ended]
        for w in active:
            workers[w].send("all", case["pauses"][w], len(stream) + 1)
        if case["parent"]:
            for _ in range(len(stream) + 2):
                if n in ended:
                    break
                own()
        for w in active:
            for c in workers[w].recv():
                take(w, c)
            require(w in ended, "worker %s does not reach the end", w)
    finally:
        for x in workers.values():
            x.stop()
    missing = [i for i in range(len(stream)) if i not in got]
    require(not missing, "chunks %s of %s were handed out to no worker", missing, len(stream))
    labels = {f"workers{len([w for w in lists if lists[w]])}"}
    full = [x for x in lists.values() if x]
    if len(full) > 1 and any(b - a > 1 for x in full for a, b in zip(x, x[1:])):
        labels.add("nt")
    if any(p and len(w) > 1 for p, w in case["rounds"]):
        labels.add("simultaneous")
    if case["pre"]:
        labels.add("forked-midway")
    return labels


SUBS = [Sub("fork", _case, _run, quick=800, thorough=20000, shards=8, cpu=30, wall=400)]
