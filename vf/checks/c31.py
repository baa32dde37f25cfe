"""C31: training feedback reaches the job, tagged with the mixture in use."""
import json
import os
import random
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vf import job, qr, world
from vf.checks import c29
from vf.core import HarnessError, Sub, Violation, fail, require, scratch, short, sut
from vf.server import Server
from vf.zygote import Zygotes

from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
from mixtera.core.datacollection.datasets import JSONLDataset
from mixtera.core.query import Query
from mixtera.core.query.mixture import MixtureKey, MixtureSchedule, ScheduleEntry, StaticMixture
from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
from mixtera.network.client.client_feedback import ClientFeedback

RULE = ("(train) training loops over a generated dataset behind a local client (no loader workers) or a real server (0-3 loader workers, 1-2 data "
        "parallel groups), through torch or Hugging Face datasets, directly or by a DataLoader; the mixture is a schedule or a dynamic mixture "
        "whose algorithm depends on losses, counts and whether the mixture id is new; 4-24 steps of consuming a batch per worker or reporting "
        "through the training helper (lists, arrays, tensors or nothing; repeated and late steps; also from other ranks), and a last report "
        "once the stream is consumed; non-trivial = a report changed the mixture of a later chunk that was consumed; (interleaved) clients of 1-6 nodes whose 1-3 workers "
        "pull samples at different speeds between reports and mixture changes; non-trivial = a worker read a chunk of an older mixture than "
        "its node has already received")
ASSUMPTIONS = ["loader workers are held by a gate in front of the dataset, such that it is known which chunks have been requested when a report "
               "is sent", "local jobs with loader workers are not exercised: forked workers do not see feedback by design"]
TECHNIQUE = ("property-based testing (Hypothesis): generated training loops with real DataLoader processes and servers, differential against "
             "the same job driven chunk by chunk through the client API")

Z = Zygotes("vf.checks.c31", (0,) * 2)


def prepare(tier):
    Z.start()


def zygote_init():
    c29.zygote_init()
    import mixtera.utils.feedback  # noqa: F401


class Alg(DynamicMixingAlgorithm):
    """Weights that depend on everything a report carries."""

    def __init__(self, every):
        super().__init__()
        self.every = every
        self.n = 0
        self.fresh = 0

    def calc_mixture(self, updated_at_client):
        self.n += 1
        self.fresh += bool(updated_at_client)
        if self.n % self.every:
            return None
        w = np.zeros(max(len(self.initial_mixture), len(self.counts)))
        for i in range(2):
            w[self.ids[i]] = 1 + (self.fresh + i * self.n + int(self.counts[i]) + int(4 * self.losses[i])) % 5 * (1 + i)
        return w / w.sum()

    ids = (0, 1)


@st.composite
def _case(draw):
    runs = [[draw(st.sampled_from(["en", "de"])), draw(st.integers(1, 12))] for _ in range(draw(st.integers(3, 10)))]
    runs += [["en", 12], ["de", 12]]
    size = draw(st.integers(2, 6))
    if draw(st.booleans()):
        starts = [0] + draw(st.lists(st.integers(1, 12), min_size=1, max_size=3, unique=True))
        mix = {"kind": "schedule", "size": size, "entries": [[s, draw(st.sampled_from([[1, 0], [0, 1], [1, 1], [2, 1], [1, 3]]))] for s in starts]}
    else:
        mix = {"kind": "dynamic", "size": size, "init": draw(st.sampled_from([[1, 1], [2, 1], [1, 3]])), "every": draw(st.sampled_from([1, 1, 2])),
               "strict": draw(st.booleans())}
    remote = draw(st.booleans())
    w = draw(st.sampled_from([0, 1, 2, 2, 3])) if remote else 0
    g = draw(st.sampled_from([1, 1, 2])) if remote else 1
    via = draw(st.sampled_from(["direct", "loader"])) if w == 0 else "loader"
    ops = []
    step = 0
    for _ in range(draw(st.integers(4, 24))):
        if draw(st.integers(0, 2)):
            ops.append(["take", draw(st.integers(0, g - 1))])
        else:
            step = max(0, step + draw(st.sampled_from([1, 1, 2, 4, 0, -1, -3])))
            form = draw(st.sampled_from(["list", "tuple", "f64", "f32", "int", "torch", "grad", "none"]))
            ops.append(["fb", step, [draw(st.integers(0, 40)) / 4 for _ in range(2)], [draw(st.integers(0, 50)) for _ in range(2)], form,
                        *draw(st.sampled_from([(0, 0), (0, 0), (0, 0), (0, 1), (1, 0)])), draw(st.integers(0, 1))])
    return {"runs": runs, "mix": mix, "remote": remote, "w": w, "g": g, "via": via, "front": draw(st.sampled_from(["torch", "torch", "hf"])),
            "batch": draw(st.sampled_from([None, 1, 2, 3])) if via == "loader" else None, "key": draw(st.booleans()),
            "prefetch": draw(st.booleans()), "ops": ops, "end": draw(st.integers(0, 2)) == 0}


def _write(d, case):
    (d / "data").mkdir()
    with open(d / "data" / "f.jsonl", "w", encoding="utf-8") as f:
        i = 0
        for lang, n in case["runs"]:
            for _ in range(n):
                f.write(json.dumps({"text": f"{lang}{i}", "meta": {"lang": lang}}) + "\n")
                i += 1
    return str(d / "data")


def _static(size, parts, strict=True):
    keys = [MixtureKey({"lang": [k]}) for k in ("en", "de")]
    return StaticMixture(size, {k: p / sum(parts) for k, p in zip(keys, parts) if p}, strict=strict)


def _mixture(case):
    m = case["mix"]
    if m["kind"] == "schedule":
        return MixtureSchedule(m["size"], [ScheduleEntry(s, _static(m["size"], p)) for s, p in m["entries"]])
    return DynamicMixture(m["size"], _static(m["size"], m["init"], m["strict"]), Alg(m["every"]), strict=m["strict"])


def _execution(case):
    return QueryExecutionArgs(mixture=_mixture(case), dp_groups=case["g"], nodes_per_group=1, num_workers=case["w"])


def _args(case, name, g=0, w=0):
    return ResultStreamingArgs(name, g, 0, w, chunk_reading_mixture_type="simple", chunk_reading_prefetch_first_sample=case["prefetch"])


class Node(c29.Node):
    def __init__(self, case, client, g):
        # the training loop of C29, with this check's job
        full = dict(case, n=1, cond=None, reading={"chunk_reading_mixture_type": "simple", "chunk_reading_prefetch_first_sample": case["prefetch"]})
        phase = {"front": case["front"], "via": case["via"], "key": case["key"], "batch": case["batch"], "gate": True}
        execution = c29._execution
        c29._execution = lambda c, plain=False: _execution(case)
        try:
            super().__init__(full, phase, client, g, 0, None)
        finally:
            c29._execution = execution


class Twin:
    """The same job, chunk by chunk."""

    def __init__(self, case, clients):
        self.case, self.clients = case, clients
        self.name = case["job"] + "_twin"
        require(clients[0].execute_query(Query.for_job(self.name).select(None), _execution(case)), "executing the query failed")
        require(clients[0].wait_for_execution(self.name), "executing the query failed")
        self.streams = {}
        self.cur = {}  # (g, w) -> samples left
        self.top = [-1] * case["g"]
        self.mixtures = []

    def next(self, g, w):
        """(key id, sample), None at the end."""
        while not self.cur.get((g, w)):
            if (g, w) not in self.streams:
                self.streams[g, w] = self.clients[g]._stream_result_chunks(self.name, g, 0, w)
            ch = next(self.streams[g, w], None)
            if ch is None:
                return None
            self.top[g] = max(self.top[g], ch.mixture_id)
            self.mixtures.append([ch.mixture_id, sorted((str(k), v) for k, v in (ch._mixture or {}).items())])
            ch.configure_result_streaming(self.clients[g], _args(self.case, self.name, g, w))
            self.cur[g, w] = [[k, s] for _, k, s in ch]
        return self.cur[g, w].pop(0)


def _form(values, form):
    import torch

    if form == "list":
        return list(values)
    if form == "tuple":
        return tuple(values)
    if form == "int":
        return np.array([int(v) for v in values])
    if form == "torch":
        return torch.tensor(values)
    if form == "grad":
        return torch.tensor(values, dtype=torch.float64, requires_grad=True)
    return np.array(values, dtype=np.float32 if form == "f32" else np.float64)


def _train(p):
    c29._die_with_parent()
    from mixtera.utils.feedback import handle_mixtera_feedback

    case = p["case"]
    root = Path(p["dir"])
    server = None
    labels = set()
    try:
        if case["remote"]:
            server = Server(root / "db", patch=c29._die_with_parent)
            clients = [MixteraClient.from_remote("127.0.0.1", server.port) for _ in range(2 * case["g"])]
        else:
            clients = [MixteraClient.from_directory(root / "db")]
            clients.append(clients[0])
        require(clients[0].register_metadata_parser("P", c29.Parser) in (True, None), "registering the parser failed")
        require(clients[0].register_dataset("ds", p["data"], JSONLDataset, world.parse_jsonl, "P") is True, "registering failed")
        g, w, b = case["g"], max(case["w"], 1), case["batch"] or 1
        twin = Twin(case, clients[g:])
        random.seed(p["index"])
        nodes = c29._keep
        sent = []
        for i in range(g):
            nodes.append(Node(case, clients[i], i))
        for x in nodes:
            x.start()
        for c in dict.fromkeys(clients[:g]):
            orig = c.process_feedback
            c.process_feedback = lambda job, fb, orig=orig: (sent.append([job, fb]), orig(job, fb))[1]
        reports = changed = 0
        ended = drained = False

        def report(op, at=""):
            _, step, losses, counts, form, dp, tp, target = op
            ls, cs = (None, None) if form == "none" else (_form(losses, form), _form(counts, {"f32": "int", "f64": "int", "grad": "torch"}.get(form, form)))
            del sent[:]
            what = f"reporting step {step}{at} as rank {dp}/{tp}"
            x = nodes[0]
            with sut(what):
                handle_mixtera_feedback(x.loader if target and (case["front"] == "torch" or not x.gates) else x.ds, step, ls, cs, dp, tp)
            if dp or tp:
                require(not sent, "%s sends %s", what, sent)
                return False
            require(len(sent) == 1, "%s sends %s reports", what, len(sent))
            job, fb = sent[0]
            require(job == case["job"], "%s: for job %s", what, job)
            require(fb.training_steps == step, "%s: step %s", what, fb.training_steps)
            require(fb.mixture_id == twin.top[0], "%s: tagged with mixture %s, the training loop is at mixture %s", what, fb.mixture_id, twin.top[0])
            ref = [None, None]
            for i, (name, got, want) in enumerate((("losses", fb.losses, losses), ("counts", fb.counts, counts))):
                if form == "none":
                    require(got is None, "%s: %s %s instead of nothing", what, name, got)
                    continue
                want = [int(v) for v in want] if form == "int" else want
                require(isinstance(got, np.ndarray) and got.tolist() == want, "%s: %s %s, expected %s", what, name, got, want)
                ref[i] = np.array(want)
            require(twin.clients[0].process_feedback(twin.name, ClientFeedback(training_steps=step, mixture_id=twin.top[0], losses=ref[0],
                                                                               counts=ref[1])), "%s: refused", what)
            return True

        for op in case["ops"]:
            if op[0] == "fb":
                if twin.top[0] < 0:
                    continue  # nothing consumed yet
                reports += report(op)
                continue
            x = nodes[op[1]]
            n0 = len(twin.mixtures)
            want = []
            for k in range(w):
                row = [twin.next(op[1], k) for _ in range(b)]
                want += [[k if case["w"] else 0, r] for r in row]
            short_ = any(r is None for _, r in want)
            if short_ and w > 1:
                drained = g == 1
                break  # who is first at the end is not known
            got = []
            if short_:
                want = [r for r in want if r[1] is not None]
                if x.gates:
                    for _ in range(b):
                        x.gates[0].release()
                try:
                    got = x._rows(next(x.it))
                except StopIteration:
                    pass
                ended = True
            else:
                got = x.take()
            c29._same(got, want, f"group {op[1]}, after {reports} reports")
            if any(m[1] != twin.mixtures[0][1] for m in twin.mixtures[n0:]) and reports:
                changed += 1
            if ended:
                break
        last = ["fb", 50, [1.0, 2.0], [3, 4], "f64", 0, 0, 0]
        if drained or (case["end"] and twin.top[0] >= 0 and not ended and g == 1):
            # consume the rest; its last batches are trained on, too
            nodes[0].drain()
            while True:
                rows = [twin.next(0, k) for k in range(w)]
                if all(r is None for r in rows):
                    break
            ended = True
        if ended and twin.top[0] >= 0:
            labels.add("report-at-end")
            report(last, " after the last sample")
        return {"reports": reports, "changed": changed, "labels": sorted(labels)}
    finally:
        if server:
            server.stop()


def serve(p):
    c29._die_with_parent()
    x = c29.Late(_train)
    try:
        return x.go(p)
    finally:
        x.stop()


_n = [0]


def _run(case):
    with scratch() as d:
        (d / "db").mkdir()
        _n[0] += 1
        c = dict(case, job=f"j{os.getpid()}_{_n[0]}_{random.SystemRandom().randrange(1 << 30)}")
        with sut("training"):
            data = _write(d, case)
            out = Z.call(os.getpid() % 2, {"case": c, "dir": str(d), "data": data, "index": _n[0]})
    labels = {case["mix"]["kind"], case["front"] + "-" + case["via"], "server" if case["remote"] else "local", *out["labels"]}
    if case["w"] > 1:
        labels.add("workers")
    if out["changed"]:
        labels.add("nt")
    return labels


@st.composite
def _inter(draw):
    """Workers of one node at different speeds, while other nodes of their group are ahead."""
    d = draw(qr.data(max_comps=4, max_len=25, max_segs=22))
    mix = draw(job.mixture(d))
    g, n, w = draw(st.integers(1, 2)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    node = st.tuples(st.integers(0, g - 1), st.integers(0, n - 1))
    ops = []
    step = 0
    for _ in range(draw(st.integers(6, 40))):
        kind = draw(st.integers(0, 9))
        if kind < 6:
            ops.append(["pull", *draw(node), draw(st.integers(0, w - 1)), draw(st.sampled_from([1, 1, 2, 4, 9]))])
        elif kind < 8:
            step += draw(st.sampled_from([1, 1, 2, 5]))
            ops.append(["fb", step, [draw(st.integers(0, 12)) for _ in range(draw(st.integers(1, 6)))], *draw(node)])
        else:
            ops.append(["mix", draw(job.mixture(d))])
    return {"data": d, "mix": mix, "g": g, "n": n, "w": w, "ops": ops, "reading": draw(st.sampled_from(["simple", "simple", "window"])),
            "prefetch": draw(st.booleans())}


def _interleaved(case):
    from mixtera.core.client.local import LocalStub
    from mixtera.core.query.chunk_distributor import ChunkDistributor

    labels = set()
    with scratch() as d, sut("streaming"):
        q, _ = qr.new_result(case["data"], job.build(case["mix"]))
        dist = ChunkDistributor(case["g"], case["n"], case["w"], q, "job")
        clients, got, streams = {}, {}, {}
        for g in range(case["g"]):
            for n in range(case["n"]):
                (d / f"{g}{n}").mkdir()
                c = clients[g, n] = LocalStub(d / f"{g}{n}")
                c._training_query_map["job"] = (dist, None, q._mixture)
                got[g, n] = []

                def record(*args, orig=c._stream_result_chunks, into=got[g, n]):
                    for ch in orig(*args):
                        into.append(ch.mixture_id)
                        yield ch

                c._stream_result_chunks = record
        for op in case["ops"]:
            if op[0] == "mix":
                q.update_mixture(job.build(op[1]))
            elif op[0] == "fb":
                c = clients[op[3], op[4]]
                if c.current_mixture_id is not None:
                    require(c.process_feedback("job", job.report(q, op[1], op[2], c.current_mixture_id)) is True, "feedback refused")
            else:
                _, g, n, w, count = op
                c = clients[g, n]
                if (g, n, w) not in streams:
                    streams[g, n, w] = iter(c.stream_results(ResultStreamingArgs(
                        "job", g, n, w, chunk_reading_mixture_type=case["reading"], chunk_reading_window_size=3,
                        chunk_reading_prefetch_first_sample=case["prefetch"])))
                for _ in range(count):
                    if next(streams[g, n, w], None) is None:
                        labels.add("ended")
                        break
                    if got[g, n][-1] < max(got[g, n]):
                        labels.add("behind")
                        labels.add("nt")
            for who, c in clients.items():
                want = max(got[who], default=None)
                require(c.current_mixture_id == want, "node %s has received chunks of the mixtures %s but reports to be at %s (after %s)",
                        who, got[who], c.current_mixture_id, op)
        if len({i for x in got.values() for i in x}) > 1:
            labels.add("several mixtures")
    return labels


SUBS = [Sub("train", _case, _run, quick=160, thorough=1500, cpu=120, wall=300),
        Sub("interleaved", _inter, _interleaved, quick=600, thorough=12000)]
