"""A job (query result + distributor) driven by operations, for uninterrupted and restored runs."""
import json
import sys
import time
from pathlib import Path

import vf.boot  # noqa: F401

import numpy as np
from hypothesis import strategies as st

from vf import qr
from vf.checks.c22 import VARIANTS, StubFit
from vf.core import fail, require

from mixtera.core.algo.ado.ado import AdoDynamicMixing
from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
from mixtera.core.query.chunk_distributor import ChunkDistributor
from mixtera.core.query.mixture import MixtureSchedule, ScheduleEntry
from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
from mixtera.network.client.client_feedback import ClientFeedback


class CountAlg(DynamicMixingAlgorithm):
    """Weights follow everything reported so far; answers every `every`-th report."""

    def __init__(self, every):
        super().__init__()
        self.every = every
        self.reports = 0

    def calc_mixture(self, updated_at_client):
        self.reports += 1
        if self.reports % self.every:
            return None
        w = np.array([1 + int(c) + (self.reports if i % 2 else 0) for i, c in enumerate(self.counts)], dtype=np.float64)
        return w / w.sum()


@st.composite
def mixture(draw, d):
    kind = draw(st.sampled_from(["plain", "plain", "dynamic", "dynamic", "schedule"]))
    if kind == "plain":
        m = draw(qr.mixture(d["comps"], d=d, max_size=6))
        m["size"] = m["size"] if m["kind"] == "static" else min(m["size"], 5)
        return m
    if kind == "dynamic" and draw(st.integers(0, 2)) == 0:
        init = draw(qr.mixture(d["comps"], kinds=("static", "infer"), d=d, max_size=6))
        return {"kind": "dynamic", "init": init, "size": init["size"], "strict": draw(st.booleans()),
                "ado": [draw(st.sampled_from(VARIANTS)), draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.booleans()),
                        draw(st.sampled_from([[[0.1, 1.0, 0.4]], [[0.2, 2.0, 0.1], [0.05, 5.0, 0.7]]]))]}
    if kind == "dynamic":
        init = draw(qr.mixture(d["comps"], kinds=("static", "infer"), d=d, max_size=6))
        return {"kind": "dynamic", "init": init, "size": init["size"], "strict": draw(st.booleans()), "every": draw(st.sampled_from([1, 1, 2, 3]))}
    starts = draw(st.lists(st.integers(0, 20), min_size=1, max_size=4, unique=True))
    entries = [[s, draw(qr.mixture(d["comps"], d=d, max_size=5))] for s in starts]
    return {"kind": "schedule", "size": draw(st.integers(1, 6)), "entries": entries}


def build(spec):
    if spec.get("ado"):
        variant, start, interval, same, plan = spec["ado"]
        alg = StubFit(variant=variant, start_step=start, scaling_law_update_interval=interval, ignore_initial_steps=0, use_same_step_size=same)
        alg.plan = [plan]
        return DynamicMixture(spec["size"], qr.build(spec["init"]), alg, strict=spec["strict"])
    if spec["kind"] == "dynamic":
        return DynamicMixture(spec["size"], qr.build(spec["init"]), CountAlg(spec["every"]), strict=spec["strict"])
    if spec["kind"] == "schedule":
        return MixtureSchedule(spec["size"], [ScheduleEntry(s, qr.build(m)) for s, m in spec["entries"]])
    return qr.build(spec)


def report(q, step, values, mid):
    """Feedback with these values for the first domains of a job."""
    values = list(values[:len(q._key_id_map)])
    if isinstance(getattr(q._mixture, "_mixing_alg", None), AdoDynamicMixing):
        # every domain is reported, with some tokens (other reports are refused)
        values = [1 + values[i % len(values)] for i in range(len(q._key_id_map))]
    return ClientFeedback(training_steps=step, mixture_id=mid, losses=np.array([x / 4 for x in values]), counts=np.array(values))


def jsonable(x):
    return json.loads(json.dumps(x))


def show(chunk):
    """Everything a consumer can see of a chunk."""
    keys = {qr.content(k): i for k, i in chunk._key_id_map.items()}
    per = qr.chunk_samples(chunk)
    mix = {str(qr.content(k)): n for k, n in chunk._mixture.items()} if chunk._mixture is not None else None
    return jsonable({"content": sorted([str(k), keys[k], v] for k, v in per.items()), "mixture_id": chunk.mixture_id,
                     "mixture": mix, "strict": chunk._strict_mixture})


def samples(chunk):
    return jsonable(qr.read(chunk))


class Job:
    def __init__(self, dist):
        self.dist = dist
        self.mid = 0
        self.fails = 0

    @property
    def q(self):
        return self.dist._query_result

    def again(self, g, n, w):
        fails, self.fails = self.fails, 0
        shown = self.request(g, n, w)
        self.fails = fails
        return shown

    def request(self, g, n, w):
        if self.fails >= 4:
            return None
        try:
            chunk = self.dist.next_chunk_for(g, n, w, True)
        except StopIteration:
            self.fails += 1
            return None
        self.fails = 0
        self.mid = max(self.mid, chunk.mixture_id)
        shown = show(chunk)
        shown["samples"] = samples(chunk)
        return shown

    def op(self, op):
        if op[0] == "mix":
            self.q.update_mixture(build(op[1]))
        elif op[0] == "fb":
            self.q._mixture.process_client_feedback(report(self.q, op[1], op[2], self.mid))
        else:
            raise ValueError(op)


def wait_done(dist, cid):
    t0 = time.monotonic()
    while not dist.checkpoint_completed(cid, True):
        require(time.monotonic() - t0 < 60, "the checkpoint does not complete")
        time.sleep(0.002)


def resume(directory, cid, log_dir, ops, mid, pending, fails):
    """Restores a checkpoint and executes a segment. Returns (transcript, job)."""
    dist = ChunkDistributor.from_checkpoint(Path(directory), cid, "job", Path(log_dir) if log_dir else None)
    job = Job(dist)
    job.mid = mid
    job.fails = fails
    return segment(job, ops, pending), job


def segment(job, ops, pending):
    """Executes the operations; `pending`: (group, node, worker) whose current chunk comes first (after a restore).
    Transcript entries: ["again", g, n, w, shown] and ["op", index, shown]."""
    pending = {tuple(p) for p in pending}
    out = []
    for i, op in enumerate(ops):
        if op[0] == "get":
            t = tuple(op[1:])
            if t in pending:
                pending.discard(t)
                out.append(["again", *t, job.again(*t)])
            out.append(["op", i, job.request(*t)])
        elif op[0] == "again":
            t = tuple(op[1:])
            if t in pending:
                pending.discard(t)
                out.append(["again", *t, job.again(*t)])
        else:
            job.op(op)
    return out


def main():
    spec = json.load(sys.stdin)
    out, _ = resume(spec["dir"], spec["id"], spec["log"], spec["ops"], spec["mid"], spec["pending"], spec["fails"])
    print("TRANSCRIPT " + json.dumps(out))


if __name__ == "__main__":
    main()
