"""C23: feedback changes the right component of a dynamic mixture."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import qr
from vf.checks.c22 import VARIANTS, StubFit
from vf.core import Sub, eq, require, sut
from vf.gen import weights

from mixtera.core.algo.dynamic_mixing.dynamic_mixing import DynamicMixingAlgorithm
from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
from mixtera.network.client.client_feedback import ClientFeedback

RULE = ("jobs with a dynamic mixture (static or inferred start, own chunk size equal or different, strict and best-effort) over generated "
        "query results, driven by 1-16 operations: chunk requests, reports of per-id losses/counts for the current or an outdated mixture id "
        "at increasing, repeated or late steps, and replacements of the mixture by another dynamic one; the algorithm is either a recording "
        "one answering with scripted weights per id (or nothing), loss averaging, or ADO with its fit replaced; non-trivial = at least two updates with a chunk made "
        "after an update")


class Recorder(DynamicMixingAlgorithm):
    """Answers with scripted weights and keeps what it was told."""

    def __init__(self):
        super().__init__()
        self.answer = None
        self.calls = []

    def calc_mixture(self, updated_at_client):
        self.calls.append((updated_at_client, [float(x) for x in self.losses], [int(x) for x in self.counts]))
        return self.answer


class Ado(StubFit):
    """ADO (with the costly fit replaced), recording its answers."""

    answer = None

    def calc_mixture(self, updated_at_client):
        self.answer = super().calc_mixture(updated_at_client)
        return self.answer


@st.composite
def dyn(draw, d):
    spec = draw(qr.mixture(d["comps"], kinds=("static", "static", "infer"), d=d))
    own = spec["size"] if draw(st.integers(0, 3)) else draw(st.integers(1, 10))
    return {"init": spec, "size": own, "strict": draw(st.booleans()), "alg": draw(st.sampled_from(["script", "script", "avg", "ado"])),
            "ado": [draw(st.sampled_from(VARIANTS)), draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.booleans()),
                    draw(st.sampled_from([[[0.1, 1.0, 0.4]], [[0.2, 2.0, 0.1], [0.05, 5.0, 0.7]]]))]}


@st.composite
def case(draw):
    d = draw(qr.data())
    ops = []
    for _ in range(draw(st.integers(1, 16))):
        k = draw(st.sampled_from(["chunk", "chunk", "fb", "fb", "new"] if ops else ["chunk", "fb"]))
        if k == "chunk":
            ops.append(["chunk"])
        elif k == "new":
            ops.append(["new", draw(dyn(d))] if draw(st.integers(0, 2)) == 1 else ["chunk"])
        else:
            n = draw(st.integers(1, 5))
            ops.append(["fb", draw(st.integers(0, 40)), draw(st.sampled_from([0, 0, 0, 1, 2])),
                        draw(st.lists(st.floats(0.125, 8, width=32), min_size=n, max_size=n)),
                        draw(st.lists(st.integers(0, 60), min_size=n, max_size=n)),
                        draw(st.one_of(st.none(), weights(n), weights(n)))])
    return {"data": d, "mix": draw(dyn(d)), "ops": ops}


def make(spec):
    alg = Recorder() if spec["alg"] == "script" else SimpleAveragingAlgorithm()
    if spec["alg"] == "ado":
        variant, start, interval, same, plan = spec["ado"]
        alg = Ado(variant=variant, start_step=start, scaling_law_update_interval=interval, ignore_initial_steps=0, use_same_step_size=same)
        alg.plan = [plan]
    return DynamicMixture(spec["size"], qr.build(spec["init"]), alg, strict=spec["strict"]), alg


def check_rows(rows, share, size, what):
    """rows: {key: n}; share: {key: ideal weight}."""
    require(sum(rows.values()) == size, "%s: rows %s do not sum to %s", what, rows, size)
    for k in set(rows) | set(share):
        ideal = share.get(k, 0.0) * size
        n = rows.get(k, 0)
        require(ideal - 1 - 1e-3 <= n <= ideal + 1 + 1e-3, "%s: key %s has %s rows, its share is %s of %s", what, k, n, share.get(k, 0.0), size)
        if abs(ideal - round(ideal)) < 1e-9 and share.get(k, 0.0) == 0:
            require(n == 0, "%s: key %s without share has %s rows", what, k, n)


def run(c):
    labels = set()
    ids = {}  # key content -> id, over the whole job

    def see_ids(m):
        now = {qr.content(k): i for k, i in m.items()}
        require(len(set(now.values())) == len(now), "two keys share an id: %s", now)
        for k, i in ids.items():
            require(now.get(k) == i, "id of %s changed from %s to %s", k, i, now.get(k))
        ids.update(now)

    with sut("building a job with a dynamic mixture"):
        mix, alg = make(c["mix"])
        q, owner = qr.new_result(c["data"], mix, stop_on_none=False)
    comps = c["data"]["comps"]
    spec = c["mix"]
    state = {}

    def adopt(spec, alg, q):
        # the starting mixture in its own right, at the size of the dynamic mixture
        ref, _ = qr.new_result(c["data"], qr.build(dict(spec["init"], size=spec["size"])))
        rows = {k: n for k, n in qr.requested(ref._mixture).items()}
        eq(qr.requested(q._mixture), rows, "rows of the starting mixture")
        state.update(want=rows, top=0, last=-1, losses={}, counts={}, n=0, size=spec["size"], strict=spec["strict"], alg=alg, kind=spec["alg"])
        see_ids(q._key_id_map)
        init = [float(x) for x in alg.initial_mixture]
        require(len(init) <= max(ids.values()) + 1, "the algorithm was told shares of %s domains, there are %s", len(init), len(ids))
        for k, i in ids.items():
            if i < len(init):
                require(math.isclose(init[i], rows.get(k, 0) / spec["size"], abs_tol=1e-6),
                        "the algorithm was told a starting share of %s for %s, its rows are %s of %s", init[i], k, rows.get(k, 0), spec["size"])
            else:
                require(rows.get(k, 0) == 0, "the algorithm was not told the starting share of %s", k)

    adopt(spec, alg, q)
    mid = -1
    previous = None
    fails = 0
    updates = 0
    seen = set()
    for op in c["ops"]:
        if op[0] == "new":
            with sut("setting another dynamic mixture"):
                mix, alg = make(op[1])
                q.update_mixture(mix)
            adopt(op[1], alg, q)
            labels.add("replaced")
            continue
        if op[0] == "fb":
            _, step, age, losses, counts, answer = op
            by_id = {i: k for k, i in ids.items()}
            n = min(len(losses), len(by_id))
            use = [i for i in range(n)]
            if sorted(by_id) != list(range(len(by_id))):
                require(False, "ids are not dense: %s", sorted(by_id))
            counts = [counts[i] for i in use]
            if state["kind"] == "ado" and not any(counts):
                counts[0] = 1  # a report without any token is refused
            losses = [losses[i] if counts[i] else 0.0 for i in use]
            sent = max(mid - age, 0)
            state["alg"].answer = None
            if state["kind"] == "script":
                if answer is not None:
                    total = sum(answer[:n])
                    if total:
                        state["alg"].answer = np.array([a / total for a in answer[:n]])
            with sut("feedback"):
                q._mixture.process_client_feedback(ClientFeedback(training_steps=step, mixture_id=sent, losses=np.array(losses),
                                                                  counts=np.array(counts)))
            state["top"] = max(state["top"], step)
            eq(q._mixture.current_step, state["top"], "training step after the feedback")
            for i in use:
                k = by_id[i]
                state["losses"][k] = state["losses"].get(k, 0.0) + losses[i]
                state["counts"][k] = state["counts"].get(k, 0) + counts[i]
            first = sent > state["last"]
            state["last"] = max(state["last"], sent)
            if state["kind"] == "script":
                told = state["alg"].calls[-1]
                eq(told[0], first, f"whether mixture {sent} was reported for the first time")
                for k, i in ids.items():
                    got = (told[1][i], told[2][i]) if i < len(told[1]) else (0.0, 0)
                    require(math.isclose(got[0], state["losses"].get(k, 0.0), rel_tol=1e-5, abs_tol=1e-6) and got[1] == state["counts"].get(k, 0),
                            "the algorithm has %s for %s, reported were %s", got, k, (state["losses"].get(k, 0.0), state["counts"].get(k, 0)))
                ans = state["alg"].answer
                share = None if ans is None else {by_id[i]: float(a) for i, a in enumerate(ans) if a > 0}
            elif state["kind"] == "ado":
                ans = state["alg"].answer
                share = None
                if ans is not None:
                    require(len(ans) <= len(by_id) and all(a >= 0 for a in ans) and math.isclose(sum(ans), 1, rel_tol=1e-6),
                            "ADO answers %s for %s domains", ans, len(by_id))
                    share = {by_id[i]: float(a) for i, a in enumerate(ans) if a > 0}
                    labels.add("ado-update")
            else:
                avg = {k: state["losses"][k] / state["counts"][k] for k in state["counts"] if state["counts"][k]}
                total = sum(avg.values())
                share = {k: v / total for k, v in avg.items()} if total else ({k: 1 / len(avg) for k in avg} if avg else None)
            if share is not None:
                rows = qr.requested(q._mixture)
                check_rows(rows, share, state["size"], "mixture after the update")
                state["want"] = rows
                updates += 1
                state["fresh"] = True
            else:
                eq(qr.requested(q._mixture), state["want"], "mixture after feedback without an update")
            continue
        if fails > 9:
            continue
        with sut("requesting a chunk"):
            try:
                chunk = next(q)
            except StopIteration:
                require(False, "the stream ended for good after %s attempts", fails)
        now = (state["want"], state["strict"])
        if mid < 0 or previous != now:
            mid += 1
            previous = now
        if chunk is None:
            fails += 1
            continue
        fails = 0
        eq(chunk.mixture_id, mid, "mixture id of the chunk")
        see_ids(chunk._key_id_map)
        per = qr.chunk_samples(chunk)
        got = {k: len(v) for k, v in per.items()}
        if state["strict"]:
            eq(got, state["want"], "composition of the chunk")
        else:
            eq(sum(got.values()), state["size"], "samples in the chunk")
            require(set(got) <= set(state["want"]), "chunk has keys %s, the mixture is %s", set(got), state["want"])
        for k, samples in per.items():
            require(k in ids, "key %s has no id", k)
            for s in samples:
                require(s not in seen, "sample %s handed out twice", s)
                seen.add(s)
                require(qr.matches([[a, list(b)] for a, b in k], comps[owner[s]]), "sample of %s handed out under %s", comps[owner[s]], k)
        for _, kid, text in qr.read(chunk):
            f, i = text[1:].split("/")
            k = next(k for k, v in ids.items() if v == kid)
            require(any(s[1] == int(f) and s[2] == int(i) for s in per.get(k, [])), "sample %s was read under id %s of %s", text, kid, k)
        if state.pop("fresh", False) and updates >= 2:
            labels.add("nt")
    if updates:
        labels.add("updated")
    return labels


SUBS = [Sub("dynamic", case, run, quick=4000, thorough=150000, shards=8, cpu=20)]
