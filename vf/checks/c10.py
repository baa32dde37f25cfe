"""C10: query caching is invisible."""
import json

import numpy as np
from hypothesis import strategies as st

from vf import job, qr, world
from vf.core import Sub, eq, fail, require, scratch, sut
from vf.faults import Fault

from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs
from mixtera.network.client.client_feedback import ClientFeedback

RULE = ("a history over one data collection: queries (some repeated, some differing in small ways) executed as new jobs with any "
        "mixture, chunks drawn from any job, feedback to any job, checkpoints with restore, datasets registered and removed, the "
        "client reopened; every job runs twice, once through the cache and once executed afresh, and both must deliver the same; "
        "(faults) executions during which file accesses to the cache fail from a generated one on, repeated when refused; "
        "non-trivial = some job was answered from the cache, and at least 2 chunks were drawn from such jobs")


@st.composite
def _queries(draw, specs):
    qs = [draw(world.query(specs))]
    for _ in range(draw(st.integers(0, 2))):
        base = json.loads(json.dumps(draw(st.sampled_from(qs))))
        how = draw(st.sampled_from(["new", "value", "op", "split", "join"]))
        if how == "value" and base[0]:
            base[0][0][2] = draw(st.one_of(st.none(), world.VALUE)) if base[0][0][1] in ("==", "!=") else draw(world.VALUE)
        elif how == "op" and base[0]:
            base[0][0][1] = draw(st.sampled_from(["==", "!="]))
        elif how == "split" and len(base[0]) > 1:
            base = [[c] for c in base[0]] + base[1:]
        elif how == "join" and len(base) > 1:
            base = [base[0] + base[1]] + base[2:]
        else:
            base = draw(world.query(specs))
        if base not in qs:
            qs.append(base)
    return qs


@st.composite
def _case(draw, faults=False):
    n = draw(st.integers(1, 3))
    specs = [draw(world.dataset(i, max_files=2)) for i in range(n + 2)]
    initial = list(range(n))
    qs = draw(_queries(specs[:n]))
    ops, jobs, live = [], 0, list(initial)
    for _ in range(draw(st.integers(2, 12))):
        kind = draw(st.sampled_from(["exec"] * 4 + ["take"] * 3 + ["fb", "ckpt", "reg", "rm", "reopen"]))
        if kind == "exec" or jobs == 0:
            ops.append(["exec", draw(st.sampled_from([0, 0, 0] + list(range(len(qs))))), draw(world.mixture(specs[:n])),
                        draw(st.integers(1, 30)) if faults and draw(st.booleans()) else 0])
            jobs += 1
        elif kind == "take":
            ops.append(["take", draw(st.integers(0, jobs - 1)), draw(st.integers(1, 4))])
        elif kind == "fb":
            ops.append(["fb", draw(st.integers(0, jobs - 1)), draw(st.integers(0, 25)),
                        draw(st.lists(st.integers(0, 9), min_size=1, max_size=6))])
        elif kind == "ckpt":
            ops.append(["ckpt", draw(st.integers(0, jobs - 1)), draw(st.booleans())])
        elif kind == "reg" and len(live) < len(specs):
            i = next(i for i in range(len(specs)) if i not in live)
            live.append(i)
            ops.append(["reg", i])
        elif kind == "rm" and live:
            i = draw(st.sampled_from(live))
            live.remove(i)
            ops.append(["rm", i])
        elif kind == "reopen":
            ops.append(["reopen"])
    return {"specs": specs, "initial": initial, "queries": qs, "ops": ops}


class Twin:
    """A job through the cache and the same job executed afresh."""

    def __init__(self, n):
        self.names = (f"job{n}", f"fresh{n}")
        self.from_cache = False
        self.chunks = 0
        self.saved = None

    def jobs(self, client):
        return [job.Job(client._get_query_chunk_distributor(n)) for n in self.names]


def _meta(client, name):
    types, funcs, paths = client._get_result_metadata(name)
    q = client._get_query_result(name)
    return job.jsonable({"types": sorted((k, v.__name__) for k, v in types.items()), "paths": sorted(paths.items()),
                         "funcs": sorted((k, f.__name__) for k, f in funcs.items()),
                         "ids": sorted([str(qr.content(k)), i] for k, i in q._key_id_map.items()), "size": q.chunk_size})


def _run(case):
    labels = set()
    with scratch() as d:
        specs = [dict(s, name=f"{s['name']}_{i}") for i, s in enumerate(case["specs"])]

        def opened():
            c = MixteraClient.from_directory(d)
            for n, cls in world.PARSERS.items():
                c.register_metadata_parser(n, cls)
            return c

        client = opened()
        w = world.World(d)
        written = {}

        def register(i):
            spec = specs[i]
            if i not in written:
                written[i] = world.write(d, spec)
            ok = client.register_dataset(spec["name"], written[i][0], world.dtype(spec), world.func(spec), spec["parser"])
            require(ok is True, "registering %r failed", spec["name"])

        for i in case["initial"]:
            register(i)
        twins = []
        drawn_cached = 0
        for op in case["ops"]:
            if op[0] == "exec":
                t = Twin(len(twins))
                q = case["queries"][op[1]]
                res = []
                for cached, name in zip((True, False), t.names):
                    query = world.build_query(name, q)
                    client._query_cache.enabled = cached
                    t.from_cache = t.from_cache or (cached and client._query_cache.get_queryresults_if_cached(query) is not None)
                    fault = Fault(d / "querycache", op[3] if cached else 0)
                    try:
                        ok = client.execute_query(query, QueryExecutionArgs(mixture=job.build(op[2]), num_workers=1))
                        res.append(ok)
                    except Exception as e:
                        res.append(type(e).__name__)
                        if fault.fired():
                            # The job was refused as the cache cannot be read or written. It must be possible when it can.
                            fault.lift()
                            labels.add("refused")
                            query = world.build_query(name, q)
                            try:
                                res[-1] = client.execute_query(query, QueryExecutionArgs(mixture=job.build(op[2]), num_workers=1))
                            except Exception as f:  # noqa: BLE001
                                res[-1] = type(f).__name__
                    finally:
                        fault.lift()
                        client._query_cache.enabled = True
                eq(res[0], res[1], f"outcome of executing {q} with {op[2]} (through the cache vs. afresh; cached: {t.from_cache})")
                if res[0] is True:
                    eq(_meta(client, t.names[0]), _meta(client, t.names[1]), f"metadata of {q} (cached: {t.from_cache})")
                    twins.append(t)
                    labels.add("cached" if t.from_cache else "executed")
                else:
                    twins.append(None)
                continue
            if op[0] == "reg":
                register(op[1])
                continue
            if op[0] == "rm":
                require(client.remove_dataset(specs[op[1]]["name"]) is True, "removing a dataset failed")
                labels.add("mutated")
                continue
            if op[0] == "reopen":
                old = client._training_query_map
                client._mdc._connection.close()
                client = opened()
                # Jobs live in the client's memory; keep using them.
                client._training_query_map.update(old)
                continue
            t = twins[op[1]] if op[1] < len(twins) else None
            if t is None:
                continue
            if op[0] == "take":
                for _ in range(op[2]):
                    got, want = _step(client, t)
                    eq(got, want, f"chunk {t.chunks} of job {t.names[0]} (cached: {t.from_cache})")
                    if want is None:
                        break
                    t.chunks += 1
                    drawn_cached += t.from_cache
            elif op[0] == "fb":
                for name in t.names:
                    q = client._get_query_result(name)
                    n = min(len(op[3]), len(q._key_id_map))
                    mid = getattr(t, "mid", 0)
                    fb = ClientFeedback(training_steps=op[2], mixture_id=mid, losses=np.array([x / 4 for x in op[3][:n]]),
                                        counts=np.array(op[3][:n]))
                    with sut("process_feedback"):
                        require(client.process_feedback(name, fb) is True, "feedback refused")
            else:
                ids = []
                for name in t.names:
                    with sut("checkpoint"):
                        cid = client.checkpoint(name, 0, 0, [0], server=True)
                        job.wait_done(client._get_query_chunk_distributor(name), cid)
                    ids.append(cid)
                eq(ids[0], ids[1], "checkpoint id")
                labels.add("checkpoint")
                if op[2]:
                    for name in t.names:
                        with sut("restore_checkpoint"):
                            client.restore_checkpoint(name, ids[0])
                    labels.add("restored")
        for t in twins:
            if t is None:
                continue
            for _ in range(6):
                got, want = _step(client, t)
                eq(got, want, f"chunk {t.chunks} of job {t.names[0]} (cached: {t.from_cache}) at the end")
                if want is None:
                    break
                t.chunks += 1
                drawn_cached += t.from_cache
        client._mdc._connection.close()
    if drawn_cached >= 2:
        labels.add("nt")
    return labels


def _step(client, t):
    out = []
    for name, j in zip(t.names, t.jobs(client)):
        try:
            shown = j.request(0, 0, 0)
        except Exception as e:
            shown = f"{type(e).__name__}: {e}"
        out.append(shown)
        if isinstance(shown, dict):
            t.mid = max(getattr(t, "mid", 0), shown["mixture_id"])
    return out


SUBS = [Sub("cache", _case, _run, quick=500, thorough=10000, shards=8, wall=140, cpu=60),
        Sub("faults", lambda: _case(faults=True), _run, quick=200, thorough=4000, shards=8, wall=140, cpu=60)]
