"""C29: training datasets deliver the whole stream once and can resume."""
import asyncio
import contextlib
import ctypes
import json
import os
import random
import select
import signal
import struct
import threading
import time
from pathlib import Path
from typing import Any, Dict, Optional

from hypothesis import strategies as st

from vf import job, world
from vf.core import HarnessError, Sub, Violation, _from_repo, _shape, fail, require, scratch, scratch_root, short, sut, tb_tail
from vf.server import Server
from vf.zygote import Zygotes

from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
from mixtera.core.datacollection.datasets import JSONLDataset
from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty
from mixtera.core.query import Query

RULE = ("a generated dataset (20-120 samples) behind a local client or a real server, a fixed, inferred or no mixture, 1-2 groups, 1-2 "
        "nodes, 0-3 data loader workers, simple/window/token reading; trained on through a torch or Hugging Face dataset, iterated "
        "directly or through a torch DataLoader (batches of none or 1-3 samples), in 1-3 successive processes: each consumes a generated "
        "number of batches per node (or all, or leaves the loop), checkpoints through the training helper with idle workers, and is killed "
        "(or drained to the end); the "
        "last one drains the stream; non-trivial = resumed at least once in the middle of a chunk, or several workers or groups sharing "
        "3 or more chunks")
ASSUMPTIONS = ["workers are kept idle at a checkpoint by a gate in front of the dataset (data loader workers otherwise run ahead of the "
               "training loop, where mixtera repeats or skips what was prefetched by design)",
               "the training helper is given the dataset itself where a Hugging Face dataset is wrapped in another dataset",
               "checkpointing several local data loader workers without a server is refused by mixtera and not exercised"]
TECHNIQUE = ("property-based testing (Hypothesis): generated training runs with real torch DataLoader processes and servers against a "
             "model of the chunk stream")

Z = Zygotes("vf.checks.c29", (0,) * 2)


def prepare(tier):
    from tokenizers import Tokenizer, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast

    vocab = {f"w{i}": i for i in range(3000)}
    vocab.update({"[U]": 3000, "<b>": 3001, "<e>": 3002})
    t = Tokenizer(models.WordLevel(vocab, unk_token="[U]"))
    t.pre_tokenizer = pre_tokenizers.WhitespaceSplit()
    PreTrainedTokenizerFast(tokenizer_object=t, bos_token="<b>", eos_token="<e>").save_pretrained(scratch_root() / "tok")
    os.environ["VF_TOK"] = str(scratch_root() / "tok")
    Z.start()


def zygote_init():
    # clients and servers poll with sleeps of up to a second
    orig, asleep = time.sleep, asyncio.sleep
    time.sleep = lambda s: orig(min(s, 0.02))

    async def quick(delay, result=None):
        return await asleep(min(delay, 0.02), result)

    asyncio.sleep = quick
    import mixtera.hf.mixtera_hf_dataset  # noqa: F401
    import mixtera.torch  # noqa: F401
    import mixtera.utils.checkpoint  # noqa: F401
    import transformers  # noqa: F401


# ---------------------------------------------------------------- generation

@st.composite
def _case(draw):
    nf = draw(st.integers(1, 3))
    files = [[[draw(st.sampled_from(["en", "de", "de", None])), draw(st.sampled_from([None, "law"])), draw(st.integers(1, 12))]
              for _ in range(draw(st.integers(1, 4)))] for _ in range(nf)]
    kind = draw(st.sampled_from(["arbitrary", "static", "infer"]))
    mix = {"kind": kind, "size": draw(st.integers(2, 9)), "strict": draw(st.booleans())}
    if kind == "static":
        keys = draw(st.lists(st.sampled_from(["en", "de"]), min_size=1, max_size=2, unique=True))
        mix["keys"] = [[["lang", [k]]] for k in keys]
        mix["parts"] = [draw(st.integers(1, 3)) for _ in keys]
    remote = draw(st.integers(0, 2)) > 0
    g, n = (draw(st.sampled_from([1, 1, 2])), draw(st.sampled_from([1, 1, 2]))) if remote else (1, 1)
    w = draw(st.sampled_from([0, 0, 1, 2, 3]))
    mode = draw(st.sampled_from(["simple", "window", "token"]))
    reading = {"chunk_reading_mixture_type": mode, "chunk_reading_prefetch_first_sample": draw(st.booleans())}
    if mode == "window":
        reading.update(chunk_reading_window_size=draw(st.integers(1, 6)), chunk_reading_window_best_effort=draw(st.booleans()))
    if mode == "token":
        reading.update(chunk_reading_sequence_len=draw(st.integers(1, 5)), chunk_reading_tokenization_bs=draw(st.integers(1, 4)),
                       chunk_reading_token_separate_thread=draw(st.booleans()), chunk_reading_token_overlapping=draw(st.booleans()),
                       chunk_reading_token_at_least_one_sample=draw(st.booleans()), chunk_reading_eos=draw(st.booleans()))
    phases = []
    for _ in range(draw(st.integers(1, 3)) if remote or w == 0 else 1):
        front = draw(st.sampled_from(["torch", "torch", "hf"]))
        via = draw(st.sampled_from(["direct", "loader"])) if w == 0 else "loader"
        phases.append({"front": front, "via": via, "key": draw(st.booleans()), "target": draw(st.booleans()),
                       "batch": draw(st.sampled_from([None, 1, 2, 3])) if via == "loader" else None,
                       "gate": draw(st.integers(0, 3)) > 0,
                       "rounds": draw(st.lists(st.integers(0, g * n - 1), max_size=14)),
                       "then": draw(st.sampled_from(["drain", "drain", "drain", "kill", "kill", "leave", "leave", "end"]))})
    for p in phases[:-1]:
        p["gate"] = True  # workers are idle at a checkpoint
    return {"files": files, "mix": mix, "remote": remote, "g": g, "n": n, "w": w, "reading": reading, "phases": phases,
            "cond": draw(st.sampled_from([None, None, ["lang", "==", "de"], ["lang", "!=", "en"]]))}


def _write(d, case):
    (d / "data").mkdir()
    c = 0
    for i, runs in enumerate(case["files"]):
        with open(d / "data" / f"f{i}.jsonl", "w", encoding="utf-8") as f:
            for lang, topic, n in runs:
                for _ in range(n):
                    words = [f"w{c + j}" for j in range(1 + c % 4)]
                    c += len(words)
                    meta = {k: v for k, v in (("lang", lang), ("topic", topic)) if v is not None}
                    f.write(json.dumps({"text": " ".join(words), "meta": meta}) + "\n")
    return str(d / "data")


# ---------------------------------------------------------------- in the processes

class Parser(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("lang", "ENUM", False, True, {"en", "de"}), MetadataProperty("topic", "STRING", True, True)]

    def parse(self, line_number: int, payload: Any, **kwargs: Optional[Dict[Any, Any]]) -> None:
        self.add_metadata(line_number, **payload["meta"])


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _write_all(fd, data):
    with os.fdopen(fd, "wb") as f:
        f.write(struct.pack("<q", len(data)) + data)


def _read(fd, pid=None):
    """One message; empty if the writer (the process pid) is gone. (Other processes may hold the pipe open, too.)"""
    data = b""
    while len(data) < 8 or len(data) < 8 + struct.unpack("<q", data[:8])[0]:
        if not select.select([fd], [], [], 1)[0]:
            if pid and os.waitid(os.P_PID, pid, os.WEXITED | os.WNOHANG | os.WNOWAIT) and not select.select([fd], [], [], 0)[0]:
                return b""
            continue
        part = os.read(fd, 1 << 20)
        if not part:
            return b""
        data += part
    return data[8:]


class Late:
    """A process forked now that runs fn(payload) later."""

    def __init__(self, fn):
        self.r, w = os.pipe()
        r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _die_with_parent()
                os.close(self.r)
                os.close(self.w)
                data = _read(r)
                if data:
                    try:
                        out = ["ok", fn(json.loads(data))]
                    except Violation as e:
                        out = ["violation", str(e)]
                    except BaseException as e:  # noqa: BLE001
                        out = ["violation" if _from_repo(e) or _shape(e) or "mixtera/" in str(e) else "harness",
                               f"{type(e).__name__}: {e}\n{tb_tail(e, 10)}"]
                    _write_all(w, json.dumps(out).encode())
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)

    def go(self, payload):
        _write_all(self.w, json.dumps(payload).encode())
        data = _read(self.r, self.pid)
        os.waitid(os.P_PID, self.pid, os.WEXITED | os.WNOWAIT)  # (until then it has the database open)
        require(data, "the training process died")
        kind, value = json.loads(data)
        if kind == "violation":
            raise Violation(value)
        if kind == "harness":
            raise HarnessError(value)
        return value

    def stop(self):
        with contextlib.suppress(ProcessLookupError):
            os.kill(self.pid, signal.SIGKILL)
        with contextlib.suppress(ChildProcessError):
            os.waitpid(self.pid, 0)


def _query(case, name):
    return Query.for_job(name).select(None if case["cond"] is None else tuple(case["cond"]))


def _args(case, name, g=0, n=0, w=0):
    kw = dict(case["reading"])
    if kw["chunk_reading_mixture_type"] == "token":
        kw["chunk_reading_tokenizer"] = os.environ["VF_TOK"]
    return ResultStreamingArgs(name, g, n, w, **kw)


def _execution(case, plain=False):
    mix = job.build(case["mix"])
    if plain:
        return QueryExecutionArgs(mixture=mix)
    return QueryExecutionArgs(mixture=mix, dp_groups=case["g"], nodes_per_group=case["n"], num_workers=case["w"])


def _norm(x):
    if isinstance(x, tuple):
        return [int(x[0]), x[1]]
    if isinstance(x, dict):  # Hugging Face
        key = x["key_id"]
        sample = x["text"] if "text" in x else x["input_ids"]
        if isinstance(key, list):
            require(len(key) == len(sample) and len(set(key)) == 1, "key ids %s for %s", key, sample)
            key = key[0]
        return [key, list(sample) if isinstance(sample, list) else sample]
    return [None, list(x) if not isinstance(x, str) else x]


def _listed(x):
    return x


class Node:
    """One node's training loop."""

    def __init__(self, case, phase, client, g, n, path):
        import torch
        from mixtera.hf import MixteraHFDataset
        from mixtera.torch import MixteraTorchDataset

        self.case, self.phase, self.g, self.n = case, phase, g, n
        w = case["w"]
        if phase["front"] == "torch":
            ds = MixteraTorchDataset(client, _query(case, case["job"]), _execution(case), _args(case, case["job"], g, n),
                                     checkpoint_path=path, return_key_id=phase["key"])
        else:
            from datasets.distributed import split_dataset_by_node

            ds = MixteraHFDataset(client, _query(case, case["job"]), _execution(case), _args(case, case["job"], g, n),
                                  checkpoint_path=path)
            ds = split_dataset_by_node(ds, rank=g, world_size=case["g"])
        self.ds = self.loader = ds
        self.gates = None
        self.it = None
        self.turn = 0
        if phase["via"] == "loader":
            data = ds
            if w and phase["gate"]:
                import multiprocessing as mp

                self.gates = gates = [mp.Semaphore(0) for _ in range(w)]

                class Gate(torch.utils.data.IterableDataset):
                    def __init__(self):
                        super().__init__()
                        self.inner = ds

                    def __getitem__(self, i):
                        raise NotImplementedError

                    def __iter__(self):
                        me = torch.utils.data.get_worker_info().id
                        it = iter(self.inner)
                        while True:
                            gates[me].acquire()
                            try:
                                x = next(it)
                            except StopIteration:
                                return
                            yield me, _norm(x)

                data = Gate()
            kw = {"prefetch_factor": 1, "worker_init_fn": lambda _: _die_with_parent()} if w else {}
            self.loader = torch.utils.data.DataLoader(data, batch_size=phase["batch"], num_workers=w, collate_fn=_listed, **kw)

    def start(self):
        self.it = iter(self.loader)

    def _rows(self, x):
        rows = x if self.phase["via"] == "loader" and self.phase["batch"] is not None else [x]
        if self.gates:
            return [[w, s] for w, s in rows]
        return [[0 if self.case["w"] <= 1 else None, _norm(s)] for s in rows]

    def take(self):
        """One batch per worker, with all other workers idle."""
        out = []
        for w in range(max(self.case["w"], 1)):
            if self.gates:
                for _ in range(self.phase["batch"] or 1):
                    self.gates[w].release()
            try:
                out += self._rows(next(self.it))
            except StopIteration:
                fail("node %s of group %s: the stream ends early", self.n, self.g)
        return out

    def drain(self):
        if self.gates:
            for s in self.gates:
                for _ in range(3000):
                    s.release()
        out = []
        for x in self.it:
            out += self._rows(x)
        return out


def _tick(what):
    if os.environ.get("VF_DEBUG"):
        print("TICK", os.getpid(), what, round(time.monotonic() - _tick.t0, 2), flush=True)


_tick.t0 = time.monotonic()


def _phase(p):
    """One training process. What every node received, before and after the checkpoint."""
    _die_with_parent()
    _tick.t0 = time.monotonic()
    case, phase, last = p["case"], p["phase"], p["last"]
    root = Path(p["dir"])
    server = None
    try:
        if case["remote"]:
            server = Server(root / "db", patch=_die_with_parent)

            def connect():
                return MixteraClient.from_remote("127.0.0.1", server.port)
        else:
            local = MixteraClient.from_directory(root / "db")

            def connect():
                return local
        client = connect()
        _tick('client = connect()')
        out = {}
        if p["first"]:
            require(client.register_metadata_parser("P", Parser) in (True, None), "registering the parser failed")
            require(client.register_dataset("ds", p["data"], JSONLDataset, world.parse_jsonl, "P") is True, "registering failed")
            # The reference: the whole stream, chunk by chunk, as the client API delivers it.
            require(client.execute_query(_query(case, "ref"), _execution(case, plain=True)), "executing the query failed")
            require(client.wait_for_execution("ref"), "executing the query failed")
            out["ref"] = []
            last_i = None
            for i, k, s in client.stream_results(_args(case, "ref")):
                if last_i is None or i <= last_i:
                    out["ref"].append([])
                last_i = i
                out["ref"][-1].append([k, list(s) if not isinstance(s, str) else s])
        random.seed(p["index"] + 17)
        _tick('random.seed(p["index')
        path = None if p["first"] else root / "ckpt"
        nodes = _keep  # (kept: tearing idle data loader workers down takes seconds; they end with this process)
        clients = []
        for g in range(case["g"]):
            for n in range(case["n"]):
                clients.append(connect() if clients else client)
                nodes.append(Node(case, phase, clients[-1], g, n, path))
        for x in nodes:
            x.start()
        _tick('for x in nodes:\n    ')
        if not last:
            out["before"] = _consume(case, phase, nodes, out.get("ref", p["ref"]), p["state"])
            if phase["then"] == "end":  # the checkpoint is taken after the end of the stream
                out["after"] = [x.drain() for x in nodes]
            if phase["then"] == "leave" and case["w"] == 0:  # ... or after the training loop has been left
                for x in nodes:
                    x.it = None
            (root / "ckpt").mkdir(exist_ok=True)
            _checkpoint(case, phase, nodes, root / "ckpt")
            _tick('_checkpoint(case, ph')
            if phase["then"] != "drain":
                return out
        out["after"] = [x.drain() for x in nodes]
        _tick('out["after"] = [x.dr')
        return out
    finally:
        if server:
            server.stop()


def _consume(case, phase, nodes, ref, state):
    m = Model(case, ref, state)
    out = []
    w, b = max(case["w"], 1), phase["batch"] or 1
    todo = list(phase["rounds"])
    if case["n"] > 1:  # the nodes of a group have to be at the same sample
        todo = [g for r in todo for g in [r % case["g"]]]
        todo = [g * case["n"] + n for g in todo for n in range(case["n"])]
    done = []
    for i, node in enumerate(todo):
        g = node // case["n"]
        snap = m.copy()
        rows = [m.next(g, node % case["n"], x) for x in range(w) for _ in range(b)]
        if any(r is None for r in rows):
            m = snap  # a worker would reach its end
            break
        done.append(node)
    if case["n"] > 1:
        done = done[:len(done) // case["n"] * case["n"]]
    for node in done:
        out.append([node, nodes[node].take()])
    return out


def _checkpoint(case, phase, nodes, path):
    from mixtera.utils.checkpoint import handle_mixtera_checkpoint

    errors = []

    def run(x):
        try:
            handle_mixtera_checkpoint(x.loader if phase["target"] and (phase["front"] == "torch" or not x.gates) else x.ds, path, x.g, x.n, True)
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    if len(nodes) == 1:
        run(nodes[0])
    else:
        ts = [threading.Thread(target=run, args=(x,), daemon=True) for x in nodes]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if errors:
        raise errors[0]


def serve(p):
    t0 = time.monotonic()
    try:
        return _serve(p)
    finally:
        if os.environ.get("VF_DEBUG"):
            print("CASE", round(time.monotonic() - t0, 2), json.dumps(p["case"]), flush=True)


def _serve(p):
    case = p["case"]
    _die_with_parent()
    procs = [Late(_phase) for _ in case["phases"]]
    try:
        ref = None
        state = None
        model = None
        seen = []
        ends = 0
        for i, phase in enumerate(case["phases"]):
            last = i == len(case["phases"]) - 1
            out = procs[i].go({"case": case, "phase": phase, "first": i == 0, "last": last, "dir": p["dir"], "data": p["data"],
                               "ref": ref, "state": state, "index": i})
            if i == 0:
                ref = out["ref"]
                model = Model(case, ref, None)
            what = f"process {i} ({phase['front']} {phase['via']})"
            for node, rows in out.get("before", []):
                g, n = node // case["n"], node % case["n"]
                b = phase["batch"] or 1
                want = []
                for w in range(max(case["w"], 1)):
                    want += [[w if case["w"] else 0, model.next(g, n, w)] for _ in range(b)]
                _same(rows, want, f"{what}, group {g}, node {n}")
            if "after" in out:
                rest = model.copy()
                rest.finish(out["after"], what)
                if not last and phase["then"] == "end":
                    model = rest
                    ends += 1
            state = model.checkpoint()
            model = Model(case, ref, state)
            seen.append(state)
        return {"chunks": len(ref), "ends": ends, "mid": sum(1 for s in seen[:-1] for v in s["at"].values() if v and v[1] > 0)}
    finally:
        for x in procs:
            x.stop()


def _same(rows, want, what):
    require(len(rows) == len(want), "%s: %s samples, expected %s", what, len(rows), len(want))
    for (gw, gs), (ww, ws) in zip(rows, want):
        require(gw is None or gw == ww, "%s: sample from worker %s, expected worker %s", what, gw, ww)
        require(gs[1] == ws[1], "%s: worker %s delivers %s, expected %s", what, ww, short(gs[1]), short(ws[1]))
        require(gs[0] is None or gs[0] == ws[0], "%s: key id %s of sample %s, expected %s", what, gs[0], short(gs[1]), ws[0])


class Model:
    """Which chunk every worker is at: chunks go to whoever of a group asks first; nodes of a group share them."""

    def __init__(self, case, ref, state):
        self.case, self.ref = case, ref
        state = state or {"next": 0, "at": {}}
        self.nxt = state["next"]
        self.at = dict(state["at"])  # "g w" -> [chunk, offset of the next sample]: where the stream (re)starts
        self.lists = {}  # (g, w) -> chunks received since the (re)start
        self.pos = {}  # (g, n, w) -> [index into lists, offset]
        for key, v in self.at.items():
            g, w = map(int, key.split())
            if v:
                self.lists[g, w] = [v[0]]
                for n in range(case["n"]):
                    self.pos[g, n, w] = [0, v[1]]

    def copy(self):
        m = Model(self.case, self.ref, {"next": self.nxt, "at": self.at})
        m.lists = {k: list(v) for k, v in self.lists.items()}
        m.pos = {k: list(v) for k, v in self.pos.items()}
        return m

    def next(self, g, n, w):
        lst = self.lists.setdefault((g, w), [])
        p = self.pos.setdefault((g, n, w), [-1, 0])
        if p[0] < 0 or p[1] >= len(self.ref[lst[p[0]]]):
            if p[0] + 1 >= len(lst):
                if self.nxt >= len(self.ref):
                    return None
                lst.append(self.nxt)
                self.nxt += 1
            p[0] += 1
            p[1] = 0
        p[1] += 1
        return self.ref[lst[p[0]]][p[1] - 1]

    def checkpoint(self):
        at = {f"{g} {w}": v for (g, w), v in ((tuple(map(int, k.split())), v) for k, v in self.at.items())}
        for (g, n, w), (i, off) in self.pos.items():
            if i >= 0:
                start = self.at.get(f"{g} {w}")
                fresh = bool(start) and i == 0 and off == start[1]  # nothing consumed since the restart
                at[f"{g} {w}"] = [self.lists[g, w][i], off if fresh else off - 1]
        return {"next": self.nxt, "at": at}

    def finish(self, after, what):
        """Everything that is left has been delivered, and nothing else."""
        case = self.case
        groups = {}
        for idx, rows in enumerate(after):
            g, n = idx // case["n"], idx % case["n"]
            per = {}
            for w, s in rows:
                per.setdefault(w, []).append(s)
            groups.setdefault(g, []).append((n, per))
        first = {json.dumps(c[0][1]): i for i, c in enumerate(self.ref)}
        taken = {}
        unordered = None in {w for per in after for w, _ in per}
        if unordered:
            return self._finish_unordered(after, what)
        for g, nodes in groups.items():
            chunks = []
            for n, per in nodes:
                mine = {}
                for w in range(max(case["w"], 1)):
                    rows = per.get(w, [])
                    got = []
                    i, off = self.pos.get((g, n, w), [-1, 0])
                    queue = [self.ref[self.lists[g, w][i]][off:]] if i >= 0 else []
                    queue += [self.ref[c] for c in self.lists.get((g, w), [])[i + 1:]]
                    k = 0
                    for part in queue:
                        _same([[w, s] for s in rows[k:k + len(part)]], [[w, s] for s in part],
                              f"{what}, group {g}, node {n}, rest of the current chunk")
                        k += len(part)
                    while k < len(rows):
                        c = first.get(json.dumps(rows[k][1]))
                        require(c is not None, "%s: worker %s of group %s continues with %s, which is not the beginning of a chunk", what, w, g,
                                short(rows[k][1]))
                        part = self.ref[c]
                        _same([[w, s] for s in rows[k:k + len(part)]], [[w, s] for s in part], f"{what}, group {g}, node {n}, chunk {c}")
                        require(not got or got[-1] < c, "%s: worker %s of group %s gets chunk %s after %s", what, w, g, c, got[-1:])
                        got.append(c)
                        k += len(part)
                    mine[w] = got
                chunks.append(mine)
            for m in chunks[1:]:
                require(m == chunks[0], "%s: the nodes of group %s receive %s and %s", what, g, chunks[0], m)
            for w, got in chunks[0].items():
                for c in got:
                    require(c >= self.nxt, "%s: chunk %s is handed out again", what, c)
                    require(c not in taken, "%s: chunk %s handed out to %s and %s", what, c, taken.get(c), (g, w))
                    taken[c] = (g, w)
            for w, got in chunks[0].items():
                lst = self.lists.setdefault((g, w), [])
                lst += got
                for n, _ in nodes:
                    if lst:
                        self.pos[g, n, w] = [len(lst) - 1, len(self.ref[lst[-1]])]
        missing = [c for c in range(self.nxt, len(self.ref)) if c not in taken]
        require(not missing, "%s: chunks %s of %s are not delivered", what, missing, len(self.ref))
        self.nxt = len(self.ref)

    def _finish_unordered(self, after, what):
        """Several workers without a gate: who delivered a sample is not known."""
        case = self.case
        want = [s for c in self.ref[self.nxt:] for s in c]
        got = []
        for g in range(case["g"]):
            per = []
            for n in range(case["n"]):
                rows = sorted((json.dumps(s[1]) for _, s in after[g * case["n"] + n]))
                rest = []
                for w in range(max(case["w"], 1)):
                    i, off = self.pos.get((g, n, w), [-1, 0])
                    if i >= 0:
                        rest += [json.dumps(s[1]) for s in self.ref[self.lists[g, w][i]][off:]]
                    for c in self.lists.get((g, w), [])[i + 1:]:
                        rest += [json.dumps(s[1]) for s in self.ref[c]]
                for r in rest:
                    require(r in rows, "%s: %s of the interrupted chunks is not delivered to group %s", what, r, g)
                    rows.remove(r)
                per.append(rows)
            for r in per[1:]:
                require(r == per[0], "%s: the nodes of group %s receive different samples", what, g)
            got += per[0]
        want = sorted(json.dumps(s[1]) for s in want)
        got.sort()
        extra = list(got)
        lost = []
        for s in want:
            if s in extra:
                extra.remove(s)
            else:
                lost.append(s)
        require(not lost and not extra, "%s: not delivered %s, delivered too often %s", what, lost[:5], extra[:5])


_keep = []
_n = [0]


def _run(case):
    with scratch() as d:
        (d / "db").mkdir()
        _n[0] += 1
        c = dict(case, job=f"j{os.getpid()}_{_n[0]}_{random.SystemRandom().randrange(1 << 30)}")
        with sut("training"):
            data = _write(d, case)
            out = Z.call(os.getpid() % 2, {"case": c, "dir": str(d), "data": data})
    labels = {case["reading"]["chunk_reading_mixture_type"], "server" if case["remote"] else "local"}
    labels |= {p["front"] + "-" + p["via"] for p in case["phases"]}
    if out["ends"]:
        labels.add("ended")
    if any(p["then"] == "leave" for p in case["phases"][:-1]) and case["w"] == 0:
        labels.add("left")
    if out["mid"]:
        labels |= {"nt", "resumed-mid-chunk"}
    if out["chunks"] >= 3 and (case["w"] > 1 or case["g"] > 1):
        labels |= {"nt", "shared"}
    return labels


SUBS = [Sub("train", _case, _run, quick=120, thorough=3000, shards=8, cpu=60, wall=300)]
