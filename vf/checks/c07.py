"""C07: the data stream is reproducible."""
import os
import random
import shutil
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from vf import cxx, job, qr, world
from vf.core import Sub, fail, require, scratch, sut, short
from vf.zygote import Zygotes

from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
from mixtera.network.client.client_feedback import ClientFeedback

RULE = ("1-3 generated datasets registered once; a query with any mixture (fixed, inferred, schedule, dynamic with feedback), "
        "distribution layout and reading mode is run three times over that data, in interpreters with different hash seeds, with "
        "the random number generators used differently before the run, between the operations and between the samples, once "
        "executed afresh, once possibly from the query cache, and with the native chunker; everything delivered must be "
        "identical; non-trivial = at least 2 chunks whose data comes from at least 2 property combinations")
ASSUMPTIONS = ["the runs see the same registered collection (a copy of its files)"]
TECHNIQUE = ("property-based testing (Hypothesis): metamorphic comparison of the same job across processes with different hash seeds "
             "and random states")

SEEDS = (0, 1, 77)
Z = Zygotes("vf.checks.c07", SEEDS)


def prepare(tier):
    os.environ["VF_CXX_SO"] = str(cxx.build())
    Z.start()


def zygote_init():
    cxx.install_from(os.environ["VF_CXX_SO"])


def _noise(n):
    """Prior use of the generators."""
    if n == 0:
        return
    random.seed(n)
    np.random.seed(n)
    for _ in range(n % 7):
        random.random()
        np.random.rand()


def _shape_of(chunk):
    """What a consumer sees of a chunk, orders included."""
    ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
    return {
        "content": [[str(qr.content(k)), ids[qr.content(k)],
                     [[d, [[f, [[int(s), int(e)] for s, e in r]] for f, r in fs.items()]] for d, fs in ds.items()]]
                    for k, ds in chunk._result_index.items()],
        "mixture": None if chunk._mixture is None else [[str(qr.content(k)), n] for k, n in chunk._mixture.items()],
        "id": chunk.mixture_id, "strict": chunk._strict_mixture,
    }


def serve(p):
    """One run of the job. Everything it delivers."""
    case, noise = p["case"], p["noise"]
    out = []
    _noise(noise)
    client = MixteraClient.from_directory(Path(p["dir"]))
    for n, cls in world.PARSERS.items():
        client.register_metadata_parser(n, cls)
    g, n, w = case["layout"]
    if p["cached"]:
        first = world.build_query("other", case["query"])
        client.execute_query(first, QueryExecutionArgs(mixture=job.build(case["other"]), num_workers=0))
        _noise(noise + 1)
    else:
        client._query_cache.enabled = False
    q = world.build_query("job", case["query"])
    client.execute_query(q, QueryExecutionArgs(mixture=job.build(case["mixture"]), dp_groups=g, nodes_per_group=n, num_workers=w))
    streams = {}
    mid = 0
    steps = 0
    for i, op in enumerate(case["ops"]):
        if op[0] == "fb":
            mix = client._get_query_result("job")._mixture
            k = min(len(op[2]), len(client._get_query_result("job")._key_id_map))
            steps += op[1]
            client.process_feedback("job", ClientFeedback(training_steps=steps, mixture_id=mid,
                                                          losses=np.array([x / 4 for x in op[2][:k]]), counts=np.array(op[2][:k])))
            continue
        key = tuple(op[1])
        if key not in streams:
            streams[key] = client._stream_result_chunks("job", *key)
        for _ in range(op[2]):
            chunk = next(streams[key], None)
            if chunk is None:
                out.append([list(key), None])
                break
            mid = max(mid, chunk.mixture_id)
            args = ResultStreamingArgs("job", *key, chunk_reading_prefetch_first_sample=False, **case["reading"])
            seen = _shape_of(chunk)
            chunk.configure_result_streaming(client, args)
            samples = []
            for s in chunk:
                samples.append([s[0], s[1], s[2]] if isinstance(s, tuple) else s)
                if noise % 2:
                    random.random()
                    np.random.rand()
            out.append([list(key), seen, job.jsonable(samples)])
        if noise % 3 == 1:
            _noise(noise + i)
    return out


@st.composite
def _case(draw):
    specs = draw(world.datasets(2))
    mixture = draw(world.mixture(specs))
    g, n, w = draw(st.integers(1, 2)), draw(st.integers(1, 2)), draw(st.integers(0, 2))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if ops and mixture["kind"] in ("dynamic", "schedule") and draw(st.integers(0, 2)) == 0:
            ops.append(["fb", draw(st.integers(0, 9)), draw(st.lists(st.integers(0, 9), min_size=1, max_size=6))])
        else:
            ops.append(["take", [draw(st.integers(0, g - 1)), draw(st.integers(0, n - 1)), draw(st.integers(0, max(w, 1) - 1))],
                        draw(st.integers(1, 4))])
    window = draw(st.booleans())
    reading = {"chunk_reading_mixture_type": "window" if window else "simple"}
    if window:
        reading["chunk_reading_window_size"] = draw(st.integers(1, 9))
        reading["chunk_reading_window_best_effort"] = draw(st.booleans())
    return {"specs": specs, "query": draw(world.query(specs)) if draw(st.booleans()) else [[]], "mixture": mixture,
            "other": draw(world.mixture(specs, dynamic=False)), "cached": draw(st.integers(0, 3)), "layout": [g, n, w], "ops": ops,
            "reading": reading, "noise": [draw(st.integers(0, 40)) for _ in SEEDS]}


def _run(case):
    labels = set()
    with scratch() as d:
        base = d / "base"
        base.mkdir()
        (d / "files").mkdir()
        with sut("registering the datasets"):
            client = MixteraClient.from_directory(base)
            for n, cls in world.PARSERS.items():
                client.register_metadata_parser(n, cls)
            for i, spec in enumerate(case["specs"]):
                loc, _ = world.write(d / "files", spec)
                ok = client.register_dataset(f"{spec['name']}_{i}", loc, world.dtype(spec), world.func(spec), spec["parser"])
                require(ok is True, "registering failed")
        del client
        if case["mixture"]["kind"] == "dynamic" and not any(
                world.selected(case["query"], {k: world.normal(k, v) for k, v in meta.items() if v is not None})
                for spec in case["specs"] for fi in range(len(spec["files"])) for _, meta in world.rows_of(spec, fi)):
            return {"empty"}  # no initial mixture can be inferred from nothing, which is refused
        runs = []
        for i in range(len(SEEDS)):
            own = d / f"run{i}"
            shutil.copytree(base, own)
            cached = i > 0 and case["cached"] == i
            if cached:
                labels.add("cached")
            runs.append(Z.call(i, {"case": case, "noise": case["noise"][i], "dir": str(own), "cached": cached}))
            shutil.rmtree(own, ignore_errors=True)
    for i in (1, 2):
        for a, b in zip(runs[0], runs[i]):
            if a[0] != b[0] or (a[1] is None) != (b[1] is None):
                fail("run %d delivers %s where the first run delivers %s", i, short(b), short(a))
            if a[1] is None:
                continue
            for part in a[1]:
                require(a[1][part] == b[1][part], "the chunks of worker %s differ in %s: %s in run %d, %s in the first run", a[0], part,
                        short(b[1][part]), i, short(a[1][part]))
            require(a[2] == b[2], "the samples of a chunk of worker %s differ: %s in run %d, %s in the first run", a[0], short(b[2]), i,
                    short(a[2]))
        require(len(runs[0]) == len(runs[i]), "run %d delivers %d chunks, the first run %d", i, len(runs[i]), len(runs[0]))
    chunks = [x for x in runs[0] if x[1] is not None]
    combos = {str(c[0]) for x in chunks for c in x[1]["content"]}
    labels.add(case["mixture"]["kind"])
    labels.add(case["reading"]["chunk_reading_mixture_type"])
    if any(op[0] == "fb" for op in case["ops"]):
        labels.add("feedback")
    if len(chunks) >= 2 and len(combos) >= 2:
        labels.add("nt")
    return labels


SUBS = [Sub("runs", _case, _run, 300, 6000, shards=8)]
