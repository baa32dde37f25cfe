"""C20: a remote server behaves exactly like a local client."""
import asyncio
import contextlib
import importlib.util
import itertools
import json
import os
import socket
import sys
import threading
import time
from typing import Any, Dict, Optional

import dill
import numpy as np
from hypothesis import strategies as st

from vf import job, qr, world
from vf.core import HarnessError, Sub, eq, in_child, require, scratch, sut, tb_tail
from vf.server import Server

from mixtera.core.client import MixteraClient
from mixtera.core.client.local import local_stub
from mixtera.core.client.mixtera_client import QueryExecutionArgs
from mixtera.core.client.server import ServerStub
from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty
from mixtera.network import NUM_BYTES_FOR_IDENTIFIERS as ID, NUM_BYTES_FOR_SIZES as SZ
from mixtera.network.client.client_feedback import ClientFeedback
from mixtera.network.server_task import ServerTask

RULE = ("(history) a sequence of client operations (parsers and datasets registered, refused and removed, queries with any mixture and "
        "any number of groups, nodes and workers, chunks and samples streamed, feedback, checkpoints, restores, operations on unknown "
        "names) executed on a local client and, interleaved with malformed, truncated, unknown and abandoned requests on other "
        "connections, through a server, with equal outcomes; (concurrent) several clients registering, removing, listing and querying "
        "at the same time; (stall) requests for unknown jobs while other clients are served; (parsers) clients' own parsers, "
        "different ones of the same class name among them, at a server with worker processes; non-trivial = at least one sample was "
        "streamed and some request was refused or malformed (history), at least 2 registrations overlapped (concurrent), parsers of one name (parsers)")


class PA(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [
            MetadataProperty("lang", "ENUM", False, True, {"en", "de", "c++", "it's", 'q"q', "a,b", "x;y", "Zz", "\u00e9"}),
            MetadataProperty("topic", "STRING", True, True),
            MetadataProperty("src", "STRING", False, True),
            MetadataProperty("grade", "ENUM", True, True, {"g1", "g2", "g10", "k:v", ""}),
        ]

    def parse(self, line_number: int, payload: Any, **kwargs: Optional[Dict[Any, Any]]) -> None:
        import json

        meta = payload["meta"]
        if isinstance(meta, str):
            meta = json.loads(meta)
        self.add_metadata(line_number, **meta)


class PB(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("topic", "STRING", True, True), MetadataProperty("extra", "STRING", False, True),
                MetadataProperty("src", "STRING", False, True)]

    def parse(self, line_number, payload, **kwargs):
        import json

        meta = payload["meta"]
        self.add_metadata(line_number, **(json.loads(meta) if isinstance(meta, str) else meta))


class PC(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("lang", "ENUM", False, False, {"en", "de", "c++", "it's", 'q"q', "a,b", "x;y", "Zz", "\u00e9"}),
                MetadataProperty("need", "STRING", False, False)]

    def parse(self, line_number, payload, **kwargs):
        import json

        meta = payload["meta"]
        self.add_metadata(line_number, **(json.loads(meta) if isinstance(meta, str) else meta))


class PN(MetadataParser):
    @classmethod
    def get_properties(cls):
        return []

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(line_number)


class PBad(MetadataParser):
    @classmethod
    def get_properties(cls):
        return []

    def parse(self, line_number, payload, **kwargs):
        raise ValueError("no such record")


PARSERS = {"A": PA, "B": PB, "C": PC, "N": PN, "bad": PBad}


@st.composite
def _case(draw):
    n = draw(st.integers(1, 3))
    specs = [draw(world.dataset(i, max_files=2)) for i in range(n)]
    specs = [dict(s, name=f"{s['name']}_{i}") for i, s in enumerate(specs)]
    ops = [["reg", i, "ok"] for i in range(n) if draw(st.integers(0, 9)) != 0]
    jobs = []
    for i in range(draw(st.integers(1, 2))):
        jobs.append({"name": f"job{i}", "dp": draw(st.sampled_from([1, 1, 2])), "nodes": draw(st.sampled_from([1, 1, 2])),
                     "workers": draw(st.integers(0, 2))})
        q = [[]] if draw(st.booleans()) else draw(world.query(specs))
        ops.append(["exec", jobs[-1], q, draw(world.mixture(specs))])
    for _ in range(draw(st.integers(2, 14))):
        kind = draw(st.sampled_from(["exec"] + ["samples"] * 4 + ["chunk"] * 2 + ["fb", "ckpt", "restore", "wait", "meta", "reg", "rm",
                                                                                     "ds", "parser", "unknown", "junk", "junk", "junk"]))
        j = draw(st.sampled_from(jobs))
        if kind == "exec":
            dup = draw(st.integers(0, 5)) == 0
            new = j if dup else {"name": f"job{len(jobs)}", "dp": draw(st.integers(1, 2)), "nodes": draw(st.integers(1, 2)),
                                 "workers": draw(st.integers(0, 2))}
            ops.append(["exec", new, draw(world.query(specs)), draw(world.mixture(specs))])
            if not dup:
                jobs.append(new)
        elif kind in ("samples", "chunk"):
            who = [draw(st.integers(0, j["dp"] - 1)), draw(st.integers(0, j["nodes"] - 1)), draw(st.integers(0, max(j["workers"], 1) - 1))]
            if draw(st.integers(0, 9)) == 0:
                who[draw(st.integers(0, 2))] = draw(st.sampled_from([7, -1]))
            ops.append([kind, j["name"], who, draw(st.sampled_from([1, 2, 3, 10, 60] if kind == "samples" else [1, 2, 3])),
                        {"mode": draw(st.sampled_from(["simple", "window"])), "window": draw(st.integers(1, 9)),
                         "tunnel": draw(st.integers(0, 3)) == 0}])
        elif kind == "fb":
            ops.append(["fb", j["name"], draw(st.integers(0, 25)), draw(st.lists(st.integers(0, 9), min_size=1, max_size=6))])
        elif kind == "ckpt":
            ops.append(["ckpt", j, [draw(st.lists(st.integers(0, 3), min_size=max(j["workers"], 1), max_size=max(j["workers"], 1)))
                                    for _ in range(j["dp"] * j["nodes"])], draw(st.integers(0, 1)) == 0])
        elif kind == "restore":
            ops.append(["restore", j["name"], draw(st.sampled_from(["chkpnt_1", "chkpnt_1", "chkpnt_2", "chkpnt_9", ""]))])
        elif kind in ("wait", "meta"):
            ops.append([kind, j["name"]])
        elif kind == "reg":
            ops.append(["reg", draw(st.integers(0, n - 1)), draw(st.sampled_from(["ok", "ok", "parser", "location", "empty", "bad"]))])
        elif kind == "rm":
            ops.append(["rm", draw(st.sampled_from([s["name"] for s in specs] + ["nope"]))])
        elif kind == "ds":
            ops.append(["ds", draw(st.sampled_from([s["name"] for s in specs] + ["nope", "", "o'x"]))])
        elif kind == "parser":
            ops.append(["parser", draw(st.sampled_from(["A", "B", "A2"])), draw(st.sampled_from(["A", "B"]))])
        elif kind == "unknown":
            ops.append(["unknown", draw(st.sampled_from(["samples", "fb", "meta", "ckpt", "restore"]))])
        else:
            ops.append(["junk", draw(_junk(specs, jobs)), draw(st.sampled_from(["eof", "eof", "close", "keep"]))])
    for j in jobs:
        ops += [["wait", j["name"]], ["ckpt", j, [[0] * max(j["workers"], 1)] * (j["dp"] * j["nodes"]), True],
                ["samples", j["name"], [0, 0, 0], 1000, {"mode": "simple", "window": 1, "tunnel": False}]]
    return {"specs": specs, "ops": ops}


@st.composite
def _malformed(draw):
    """A running job, a burst of bad requests, and the rest of the job."""
    specs = [dict(draw(world.dataset(0, max_files=2, types=("jsonl",))), name="ds0")]
    j = {"name": "job0", "dp": draw(st.sampled_from([1, 1, 2])), "nodes": draw(st.sampled_from([1, 1, 2])),
         "workers": draw(st.integers(0, 2))}
    plain = {"mode": "simple", "window": 1, "tunnel": False}
    ops = [["reg", 0, "ok"], ["exec", j, [[]], draw(world.mixture(specs, max_size=4))]]
    for g in range(j["dp"]):
        for n in range(j["nodes"]):
            ops.append(["chunk", "job0", [g, n, 0], 1, plain])
    if draw(st.booleans()):
        ops.append(["ckpt", j, [[0] * max(j["workers"], 1)] * (j["dp"] * j["nodes"]), True])
    for _ in range(draw(st.integers(1, 12))):
        ops.append(["junk", draw(_junk(specs, [j])), draw(st.sampled_from(["eof", "eof", "close", "keep"]))])
    ops += [["wait", "job0"], ["ds", "ds0"], ["meta", "job0"],
            ["ckpt", j, [[0] * max(j["workers"], 1)] * (j["dp"] * j["nodes"]), True]]
    for g in range(j["dp"]):
        for n in range(j["nodes"]):
            ops.append(["samples", "job0", [g, n, max(j["workers"], 1) - 1], 1000, plain])
    return {"specs": specs, "ops": ops}


TRUNCATE = ["CHECKPOINT", "CHECKPOINT", "RESTORE_CHECKPOINT", "REGISTER_QUERY", "QUERY_EXEC_STATUS", "GET_META_RESULT", "GET_NEXT_RESULT_CHUNK", "REGISTER_DATASET", "REGISTER_METADATA_PARSER",
            "CHECK_DATASET_EXISTS", "REMOVE_DATASET", "CHECKPOINT", "RESTORE_CHECKPOINT", "RECEIVE_FEEDBACK", "READ_FILE"]


@st.composite
def _junk(draw, specs, jobs):
    kind = draw(st.sampled_from(["truncated"] * 4 + ["raw", "raw", "task", "length", "object"]))
    if kind == "raw":
        return ["raw", draw(st.binary(max_size=40).filter(lambda b: len(b) < 8 or int.from_bytes(b[:8], "big") > 16)).hex()]
    if kind == "task":
        return ["task", draw(st.sampled_from([3, 17, 99, -1, 2**62, -2**63]))]
    name = draw(st.sampled_from(jobs))["name"] if jobs else "job0"
    if kind == "length":
        return ["length", draw(st.sampled_from(["CHECK_DATASET_EXISTS", "REMOVE_DATASET", "GET_NEXT_RESULT_CHUNK", "READ_FILE"])),
                draw(st.sampled_from([-1, -2**40, 2**40, 2**62, 5, 1])), draw(st.binary(max_size=6)).hex()]
    if kind == "object":
        task = draw(st.sampled_from(["REGISTER_QUERY", "REGISTER_DATASET"]))
        return ["object", task, draw(st.sampled_from(["", "00", "ff" * 9, "80", "804e2e", "8004952e", "2e"] +
                                                     (["4e2e", "4b012e"] if task == "REGISTER_QUERY" else [])))]
    task = draw(st.sampled_from(TRUNCATE))
    return ["truncated", task, name, draw(st.sampled_from([s["name"] for s in specs])), draw(st.one_of(st.integers(0, 7), st.integers(0, 10**4)))]


def _int(v, n=ID):
    return v.to_bytes(n, "big", signed=True)


def _str(s, n=ID):
    b = s if isinstance(s, bytes) else s.encode()
    return _int(len(b), n) + b


def _request(task, jobname, ds, query, mixture):
    """The fields of a complete request as the client sends it."""
    arr = np.array([1.0, 2.0])
    buf = __import__("io").BytesIO()
    np.save(buf, arr)
    array = [_int(1), _str(buf.getvalue(), SZ)]
    fields = {
        "REGISTER_QUERY": [_str(dill.dumps(mixture), SZ), _int(1), _int(1), _int(1), _str(dill.dumps(query), SZ)],
        "QUERY_EXEC_STATUS": [_str(jobname)],
        "GET_META_RESULT": [_str(jobname)],
        "GET_NEXT_RESULT_CHUNK": [_str(jobname), _int(0), _int(0), _int(0)],
        "REGISTER_DATASET": [_str("junk_dataset"), _str("/nonexistent"), _int(1), _str(dill.dumps(world.parse_jsonl), SZ), _str("A")],
        "REGISTER_METADATA_PARSER": [_str("A3"), _str("class X(MetadataParser): pass", SZ)],
        "CHECK_DATASET_EXISTS": [_str(ds)],
        "REMOVE_DATASET": [_str(ds)],
        "CHECKPOINT": [_str(jobname), _int(0), _int(0), _int(2), _int(1), _int(1)],
        "RESTORE_CHECKPOINT": [_str(jobname), _str("chkpnt_1")],
        "RECEIVE_FEEDBACK": [_str(jobname), _int(3), _int(0)] + array + array,
        "READ_FILE": [_str("/nonexistent/file")],
    }[task]
    return [_int(int(ServerTask[task]))] + fields


def _junk_bytes(j):
    if j[0] == "raw":
        return bytes.fromhex(j[1])
    if j[0] == "task":
        return _int(j[1]) + b"\0" * 16
    if j[0] == "length":
        return _int(int(ServerTask[j[1]])) + _int(j[2]) + bytes.fromhex(j[3])
    if j[0] == "object":
        obj = _str(bytes.fromhex(j[2]), SZ)
        if j[1] == "REGISTER_QUERY":
            return _int(int(ServerTask.REGISTER_QUERY)) + obj + _int(1) * 3 + obj
        return _int(int(ServerTask.REGISTER_DATASET)) + _str("junk") + _str("/nonexistent") + _int(1) + obj + _str("A")
    fields = _request(j[1], j[2], j[3], world.build_query("junkjob", [[]]), qr.build({"kind": "arbitrary", "size": 2}))
    if j[4] < 8:  # at a field boundary
        return b"".join(fields[:1 + j[4] % (len(fields) - 1)])
    data = b"".join(fields)
    return data[:j[4] % (len(data) - 1) + 1]


class Junk:
    def __init__(self, port):
        self.port = port
        self.open = []

    def send(self, data, how):
        s = socket.create_connection(("127.0.0.1", self.port), 10)
        s.settimeout(20)
        with contextlib.suppress(OSError):
            s.sendall(data)
            if how == "eof":
                s.shutdown(socket.SHUT_WR)
                while s.recv(65536):
                    pass
        if how == "keep":
            self.open.append(s)
        else:
            s.close()

    def close(self):
        for s in self.open:
            s.close()


REFUSED = "refused"


def _outcome(fn):
    try:
        r = fn()
    except Exception:  # noqa: BLE001 - refusals may be errors
        if os.environ.get("VF_DEBUG"):
            import traceback

            traceback.print_exc()
        return REFUSED
    return REFUSED if r is None or r is False else r


def _wait_done(client, name, cid):
    end = time.monotonic() + 60
    while not client.checkpoint_completed(name, cid, True):
        require(time.monotonic() < end, "the checkpoint does not complete")
        time.sleep(0.005)
    require(client.checkpoint_completed(name, cid, False), "checkpoint completed on disk, but not in memory")


class Executor:
    """Executes operations on a client; returns JSON-able outcomes."""

    def __init__(self, client, locations):
        self.client = client
        self.locations = locations
        self.mid = {}
        self.stuck = set()

    def op(self, case, op):
        c, kind = self.client, op[0]
        if kind == "reg":
            spec = case["specs"][op[1]]
            loc, parser = self.locations[op[1]], spec["parser"]
            if op[2] == "parser":
                parser = "unregistered"
            elif op[2] == "location":
                loc = "/nonexistent/place"
            elif op[2] == "empty":
                loc = self.locations["empty"]
            elif op[2] == "bad":
                parser = "bad"
            return _outcome(lambda: c.register_dataset(spec["name"], loc, world.dtype(spec), world.func(spec), parser))
        if kind == "rm":
            return _outcome(lambda: c.remove_dataset(op[1]))
        if kind == "ds":
            return [_outcome(lambda: c.check_dataset_exists(op[1])), sorted(c.list_datasets())]
        if kind == "parser":
            return _outcome(lambda: c.register_metadata_parser(op[1], PARSERS[op[2]]))
        if kind == "exec":
            j = op[1]
            q = world.build_query(j["name"], op[2])
            args = QueryExecutionArgs(mixture=job.build(op[3]), dp_groups=j["dp"], nodes_per_group=j["nodes"], num_workers=j["workers"])
            return _outcome(lambda: c.execute_query(q, args) and c.wait_for_execution(j["name"]))
        if kind == "wait":
            return None if op[1] in self.stuck else _outcome(lambda: c.wait_for_execution(op[1]))
        if kind == "meta":
            return _outcome(lambda: self._meta(op[1]))
        if kind == "chunk":
            return _outcome(lambda: self._chunks(op[1], op[2], op[3]))
        if kind == "samples":
            return _outcome(lambda: self._samples(op[1], op[2], op[3], op[4]))
        if kind == "fb":
            return _outcome(lambda: self._feedback(op[1], op[2], op[3]))
        if kind == "ckpt":
            return self._ckpt(op[1], op[2], op[3])
        if kind == "restore":
            def restore():
                c.restore_checkpoint(op[1], op[2])
                return c.wait_for_execution(op[1])

            r = _outcome(restore)
            # After a failed restore of a running job, wait_for_execution keeps reporting that failure remotely.
            (self.stuck.add if r == REFUSED else self.stuck.discard)(op[1])
            if r is True:
                self.mid.pop(op[1], None)
            return r
        if kind == "unknown":
            calls = {"samples": lambda: self._samples("nope", [0, 0, 0], 1, {"mode": "simple", "window": 1, "tunnel": False}),
                     "fb": lambda: self._feedback("nope", 3, [1, 2]), "meta": lambda: self._meta("nope"),
                     "ckpt": lambda: c.checkpoint("nope", 0, 0, [0], server=True),
                     "restore": lambda: (c.restore_checkpoint("nope", "chkpnt_1"), c.wait_for_execution("nope"))[1]}
            return _outcome(calls[op[1]])
        raise HarnessError(f"unknown operation {op}")

    def _meta(self, name):
        types, funcs, paths = self.client._get_result_metadata(name)
        return job.jsonable([sorted((k, v.__name__) for k, v in types.items()), sorted((k, f.__name__) for k, f in funcs.items()),
                             sorted(paths.items())])

    def _chunks(self, name, who, n):
        out = []
        gen = self.client._stream_result_chunks(name, *who)
        for chunk in itertools.islice(gen, n):
            self.mid[name] = max(self.mid.get(name, 0), chunk.mixture_id)
            out.append(job.show(chunk))
        return out

    def _samples(self, name, who, n, r):
        c = self.client
        args = qr.read_args(chunk_reading_mixture_type=r["mode"], chunk_reading_window_size=r["window"],
                            tunnel_via_server=r["tunnel"] and c.is_remote())
        args.job_id, args.dp_group_id, args.node_id, args.worker_id = name, *who
        before = c.current_mixture_id
        gen = c.stream_results(args)
        out = [job.jsonable(x) for x in itertools.islice(gen, n)]
        mid = c.current_mixture_id
        gen.close()
        if mid is not None and out:
            self.mid[name] = max(self.mid.get(name, 0), mid)
        return [out, before, mid]

    def _feedback(self, name, steps, losses):
        losses = losses[:2]
        fb = ClientFeedback(training_steps=steps, mixture_id=self.mid.get(name, 0), losses=np.array([x / 4 for x in losses]),
                            counts=np.array(losses))
        return self.client.process_feedback(name, fb)

    def _ckpt(self, j, statuses, wait):
        c, out = self.client, []
        nodes = [(g, n) for g in range(j["dp"]) for n in range(j["nodes"])]
        for (g, n), status in zip(nodes, statuses):
            out.append(_outcome(lambda: c.checkpoint(j["name"], g, n, status, server=True)))
        if out[-1] != REFUSED:
            _wait_done(c, j["name"], out[-1])
        return out


def _quick_waits():
    """Unknown jobs are waited for a minute; make that short."""
    orig = local_stub.wait_for_key_in_dict
    local_stub.wait_for_key_in_dict = lambda d, k, t: orig(d, k, 0.0)


@contextlib.contextmanager
def _short_sleeps():
    """The client polls with sleeps of a second."""
    orig, asleep = time.sleep, asyncio.sleep
    time.sleep = lambda s: orig(min(s, 0.01))

    async def quick(delay, result=None):
        return await asleep(min(delay, 0.01), result)

    asyncio.sleep = quick
    try:
        yield
    finally:
        time.sleep, asyncio.sleep = orig, asleep


def _local(case, d):
    """Writes the data; all outcomes on a local client."""
    locations = {i: world.write(d, s)[0] for i, s in enumerate(case["specs"])}
    (d / "nofiles").mkdir()
    locations["empty"] = str(d / "nofiles")
    _quick_waits()
    ex = Executor(MixteraClient.from_directory(d / "local"), locations)
    for n, p in PARSERS.items():
        ex.client.register_metadata_parser(n, p)
    return locations, [job.jsonable(ex.op(case, op)) if op[0] != "junk" else None for op in case["ops"]]


def _remote(case, port, locations, want):
    labels = set()
    junk = Junk(port)
    with _short_sleeps():
        ex = Executor(ServerStub("127.0.0.1", port), locations)
        for n, p in PARSERS.items():
            eq(ex.client.register_metadata_parser(n, p), True, f"registering parser {n}")
        for i, op in enumerate(case["ops"]):
            if op[0] == "junk":
                junk.send(_junk_bytes(op[1]), op[2])
                labels.update({"junk", op[1][0], REFUSED})
                continue
            with sut(f"operation {i} {op}"):
                got = job.jsonable(ex.op(case, op))
            eq(got, want[i], f"outcome of operation {i} {op} through the server (got) and locally (want)")
            labels.add(op[0])
            if got == REFUSED:
                labels.add(REFUSED)
            if op[0] == "samples" and got != REFUSED and got[0]:
                labels.add("streamed")
        with sut("list_datasets"):
            ex.client.list_datasets()
    junk.close()
    return labels


def _run(case):
    # (All work happens in children: forking a process that has used, e.g., Arrow's threads is not safe.)
    with scratch() as d:
        for n in ("local", "remote"):
            (d / n).mkdir()
        locations, want = in_child(lambda: _local(case, d))
        server = Server(d / "remote", _quick_waits)
        try:
            labels = in_child(lambda: _remote(case, server.port, locations, want))
            require(server.alive(), "the server died")
        finally:
            server.stop()
    if {REFUSED, "streamed"} <= labels:
        labels.add("nt")
    return labels


@st.composite
def _concurrent(draw):
    clients = []
    for i in range(draw(st.integers(2, 5))):
        ops = []
        for _ in range(draw(st.integers(1, 5))):
            ops.append(draw(st.sampled_from(["reg", "reg", "rm", "own", "own", "all", "all", "list"])))
        clients.append({"files": draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)), "ops": ops, "size": draw(st.integers(1, 9))})
    return {"clients": clients}


def _texts(i, c):
    return [f"{i}.{f}.{n}" for f, k in enumerate(c["files"]) for n in range(k)]


def _stream(client, name, query, size):
    q = world.build_query(name, query)
    require(client.execute_query(q, QueryExecutionArgs(mixture=qr.build({"kind": "arbitrary", "size": size}))), "query %s refused", query)
    require(client.wait_for_execution(name), "executing query %s failed", query)
    args = qr.read_args()
    args.job_id = name
    return sorted(x[2] for x in client.stream_results(args))


def _client(i, case, d, port, log, gate):
    c = case["clients"][i]
    client = ServerStub("127.0.0.1", port)
    own, jobs = False, 0
    whole = [_texts(k, x) for k, x in enumerate(case["clients"])]
    gate.wait()
    try:
        for op in c["ops"]:
            if op == "reg":
                eq(client.register_dataset(f"ds{i}", str(d / f"data{i}"), world.JSONLDataset, world.parse_jsonl, "B"), not own,
                   f"client {i} registering its dataset (registered before: {own})")
                own = True
            elif op == "rm":
                eq(client.remove_dataset(f"ds{i}"), own, f"client {i} removing its dataset (registered: {own})")
                own = False
            elif op == "list":
                eq([f"ds{i}" in client.list_datasets(), client.check_dataset_exists(f"ds{i}")], [own, own], f"client {i}'s dataset listed, exists")
            else:
                jobs += 1
                query = [[["src", "==", f"s{i}"]]] if op == "own" else [[]]
                got = _stream(client, f"job{i}_{jobs}", query, c["size"])
                if op == "own":
                    eq(got, sorted(whole[i]) if own else [], f"samples of client {i}'s dataset (registered: {own})")
                else:
                    for k, texts in enumerate(whole):
                        part = [t for t in got if t.startswith(f"{k}.")]
                        require(part in ([], sorted(texts)), "a query over everything delivered %s of dataset %s, which has %s", part, k, texts)
                    require(not own or not whole[i] or any(t.startswith(f"{i}.") for t in got), "client %s's dataset is missing in %s", i, got)
        log.append(("ok", i, own))
    except Exception as e:  # noqa: BLE001
        log.append(("error", i, f"{type(e).__name__}: {e}\n{tb_tail(e, 6)}"))


def _write_concurrent(case, d):
    for i, c in enumerate(case["clients"]):
        (d / f"data{i}").mkdir()
        for f, k in enumerate(c["files"]):
            (d / f"data{i}" / f"f{f}.jsonl").write_text(
                "".join(json.dumps({"text": f"{i}.{f}.{n}", "meta": {"src": f"s{i}"}}) + "\n" for n in range(k)))


def _clients(case, d, port):
    log, gate = [], threading.Barrier(len(case["clients"]))
    with _short_sleeps():
        client = ServerStub("127.0.0.1", port)
        eq(client.register_metadata_parser("B", PB), True, "registering the parser")
        threads = [threading.Thread(target=_client, args=(i, case, d, port, log, gate)) for i in range(len(case["clients"]))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        bad = [m for k, _, m in log if k == "error"]
        require(not bad, "%s", bad[0] if bad else "")
        left = sorted(i for _, i, own in log if own)
        eq(sorted(client.list_datasets()), [f"ds{i}" for i in left], "datasets at the end")
        want = sorted(t for i in left for t in _texts(i, case["clients"][i]))
        eq(_stream(client, "final", [[]], 3), want, "samples at the end")
        for i, c in enumerate(case["clients"]):
            eq(_stream(client, f"final{i}", [[["src", "==", f"s{i}"]]], 3), sorted(_texts(i, c)) if i in left else [],
               f"samples of dataset {i} at the end")
    return {"nt"} if sum("reg" in c["ops"] for c in case["clients"]) >= 2 else set()


def _run_concurrent(case):
    with scratch() as d:
        _write_concurrent(case, d)
        (d / "remote").mkdir()
        server = Server(d / "remote", _quick_waits)
        try:
            labels = in_child(lambda: _clients(case, d, server.port))
            require(server.alive(), "the server died")
        finally:
            server.stop()
    return labels


STALL = ["GET_META_RESULT", "GET_NEXT_RESULT_CHUNK", "CHECKPOINT", "CHECKPOINT_COMPLETED", "RECEIVE_FEEDBACK", "QUERY_EXEC_STATUS",
         "RESTORE_CHECKPOINT"]


@st.composite
def _stall(draw):
    return {"tasks": draw(st.lists(st.sampled_from(STALL), min_size=1, max_size=4)), "files": [draw(st.integers(1, 6))],
            "size": draw(st.integers(1, 3))}


def _stall_clients(case, d, port):
    client = ServerStub("127.0.0.1", port)
    with _short_sleeps():
        eq(client.register_metadata_parser("B", PB), True, "registering the parser")
        eq(client.register_dataset("ds0", str(d / "data0"), world.JSONLDataset, world.parse_jsonl, "B"), True, "registering a dataset")
        q = world.build_query("job", [[]])
        require(client.execute_query(q, QueryExecutionArgs(mixture=qr.build({"kind": "arbitrary", "size": case["size"]}))), "query refused")
        require(client.wait_for_execution("job"), "executing a query failed")
    args = qr.read_args()
    args.job_id = "job"
    stream = client.stream_results(args)
    got = [next(stream)[2]]
    junk = Junk(port)
    for t in case["tasks"]:
        if t == "CHECKPOINT_COMPLETED":
            data = _int(int(ServerTask[t])) + _str("nope") + _str("chkpnt_1") + _int(1)
        else:
            data = b"".join(_request(t, "nope", "nope", q, None))
        junk.send(data, "keep")
    start = time.monotonic()
    with sut(f"serving other clients while a request for an unknown job is pending ({case['tasks']})"):
        eq(client.list_datasets(), ["ds0"], "datasets")
        got += [x[2] for x in stream]
        require(client.wait_for_execution("job"), "the job does not exist any more")
    took = time.monotonic() - start
    require(took < 20, "other clients were not served for %.0f seconds because of requests for an unknown job (%s)", took, case["tasks"])
    junk.close()
    eq(sorted(got), sorted(_texts(0, case)), "samples")
    return {"nt", *case["tasks"]}


def _run_stall(case):
    with scratch() as d:
        _write_concurrent({"clients": [case]}, d)
        (d / "remote").mkdir()
        server = Server(d / "remote")
        try:
            labels = in_child(lambda: _stall_clients(case, d, server.port))
            require(server.alive(), "the server died")
        finally:
            server.stop()
    return labels


PARSER_SOURCE = """from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty


class {cls}(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("{prop}", "STRING", {multiple}, True)]

    def parse(self, line_number, payload, **kwargs):
        self.add_metadata(line_number, {prop}=payload["{field}"] + "{mark}")
"""


@st.composite
def _own_parsers(draw):
    """Clients that bring their own parsers, among them different ones of the same name."""
    parsers = []
    for i in range(draw(st.integers(2, 3))):
        parsers.append({"cls": draw(st.sampled_from(["Meta", "Meta", "MyParser"])), "prop": draw(st.sampled_from(["src", "src", "kind"])),
                        "multiple": False, "field": draw(st.sampled_from(["a", "b"])), "mark": f".{i}"})
    sets = [[draw(st.integers(0, len(parsers) - 1)), draw(st.lists(st.integers(1, 4), min_size=1, max_size=4))]
            for _ in range(draw(st.integers(2, 4)))]
    return {"parsers": parsers, "sets": sets, "late": draw(st.booleans()), "again": draw(st.booleans())}


def _own_parser_client(case, d, port):
    client = ServerStub("127.0.0.1", port)
    classes = []
    for i, spec in enumerate(case["parsers"]):
        name = f"vf_own_parser_{i}"
        (d / f"{name}.py").write_text(PARSER_SOURCE.format(**spec))
        found = importlib.util.spec_from_file_location(name, d / f"{name}.py")
        sys.modules[name] = module = importlib.util.module_from_spec(found)
        found.loader.exec_module(module)
        classes.append(getattr(module, spec["cls"]))
    ready = set()

    def parser(i):
        if i not in ready:
            ready.add(i)
            with sut(f"registering parser {i}"):
                eq(client.register_metadata_parser(f"P{i}", classes[i]), True, f"registering parser {i}")

    if not case["late"]:
        for i in range(len(classes)):
            parser(i)
    want = {}
    labels = set()
    with _short_sleeps():
        for n, (i, files) in enumerate(case["sets"]):
            parser(i)
            spec = case["parsers"][i]
            (d / f"own{n}").mkdir()
            for f, k in enumerate(files):
                (d / f"own{n}" / f"f{f}.jsonl").write_text(
                    "".join(json.dumps({"text": f"{n}.{f}.{x}", "a": f"a{x % 2}", "b": f"b{x % 2}"}) + "\n" for x in range(k)))
                for x in range(k):
                    want.setdefault((spec["prop"], f"{spec['field']}{x % 2}{spec['mark']}"), []).append(f"{n}.{f}.{x}")
            with sut(f"registering a dataset with parser {i} (class {spec['cls']})"):
                eq(client.register_dataset(f"own{n}", str(d / f"own{n}"), world.JSONLDataset, world.parse_jsonl, f"P{i}"), True,
                   f"registering dataset {n} with parser {i} (class {spec['cls']})")
            if case["again"]:
                with sut("registering a parser under a taken name"):
                    eq(client.register_metadata_parser(f"P{i}", classes[0]), False, f"registering another parser as P{i}")
            if len({case["parsers"][j]["cls"] for j in ready}) < len(ready):
                labels.add("nt")
        for k, ((prop, value), texts) in enumerate(sorted(want.items())):
            with sut(f"querying {prop} == {value}"):
                eq(_stream(client, f"j{k}", [[[prop, "==", value]]], 3), sorted(texts), f"samples with {prop} == {value}")
    return labels


def _real_pool():
    os.environ.pop("PYTEST_CURRENT_TEST", None)
    _quick_waits()


def _run_own_parsers(case):
    with scratch() as d:
        (d / "remote").mkdir()
        server = Server(d / "remote", _real_pool)
        try:
            labels = in_child(lambda: _own_parser_client(case, d, server.port))
            require(server.alive(), "the server died")
        finally:
            server.stop()
    return labels


SUBS = [Sub("history", _case, _run, quick=240, thorough=6000, shards=8, cpu=60, wall=150),
        Sub("malformed", _malformed, _run, quick=160, thorough=4000, shards=8, cpu=60, wall=150),
        Sub("concurrent", _concurrent, _run_concurrent, quick=120, thorough=3000, shards=4, cpu=60, wall=150),
        Sub("stall", _stall, _run_stall, quick=24, thorough=200, shards=2, cpu=60, wall=150),
        Sub("parsers", _own_parsers, _run_own_parsers, quick=24, thorough=500, shards=4, cpu=60, wall=150)]
