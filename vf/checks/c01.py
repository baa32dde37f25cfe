"""C01: a query selects exactly the samples its conditions describe."""
from hypothesis import strategies as st

from vf import cxx, world
from vf.core import Sub, eq, fail, require, scratch, sut

from mixtera.core.client import MixteraClient
from mixtera.core.query.mixture import ArbitraryMixture

RULE = ("1-3 generated datasets (JSONL, gzipped JSONL, Parquet; single- and multi-valued, string and enumeration "
        "properties, values with any characters, absent values) registered in a real data collection, and 1-6 queries over "
        "them; the query's intervals are compared sample by sample with a plain Python evaluation of the conditions; "
        "(large) the same with files of up to 150 000 rows, in long or in many short runs; non-trivial = some query selects some but not all samples")
ASSUMPTIONS = ["conditions name properties that a registered dataset declares (others are documented to be skipped), and "
               "comparison operators are used on single-valued properties only (marked as unfinished in the code)",
               "runs with the native chunker compiled from /repo"]


def prepare(tier):
    cxx.build()


@st.composite
def _case(draw):
    specs = draw(world.datasets())
    return {"specs": specs, "queries": draw(st.lists(world.query(specs), min_size=1, max_size=6)),
            "reopen": draw(st.integers(0, 4)) == 0}


@st.composite
def _large_case(draw):
    """The same with files of many thousand rows (DuckDB works on vectors of 2 048 and row groups of 122 880 rows)."""
    specs = draw(world.datasets(max_datasets=2, max_files=2, types=("jsonl", "parquet", "parquet")).filter(
        lambda ss: all(s["parser"] != "N" and sum(n for f in s["files"] for _, n in f) > 3 for s in ss)))
    budget = draw(st.sampled_from([3000, 9000, 30000, 60000, 150000])) // len(specs)
    for spec in specs:
        k = max(budget // max(1, sum(n for f in spec["files"] for _, n in f)), 1)
        if draw(st.booleans()):
            spec["stretch"] = ["rows", k]
        else:
            spec["stretch"] = ["runs", k]
    return {"specs": specs, "queries": draw(st.lists(world.query(specs), min_size=2, max_size=5)) + [[[]]],
            "reopen": draw(st.booleans())}


def _run_large(case):
    specs = []
    for s in case["specs"]:
        how, k = s["stretch"]
        files = [[[p, n * k] for p, n in f] if how == "rows" else [list(r) for r in f] * k for f in s["files"]]
        specs.append(dict(s, files=files))
    return _run(dict(case, specs=specs)) | {s["stretch"][0] for s in case["specs"]}


def check_query(client, w, q, job):
    query = world.build_query(job, q)
    with sut(f"executing {q}"):
        query.execute(client._mdc, ArbitraryMixture(3))
    res = query.results
    index = res.chunker_index if hasattr(res, "chunker_index") else res._chunker_index
    mdc = client._mdc
    names = {i: n for i, n in mdc._connection.execute("SELECT id, name FROM datasets").fetchall()}
    got = {}
    for key, ds in index.items():
        props = {k: tuple(sorted(v)) for k, v in key.properties.items()}
        for did, files in ds.items():
            for fid, ivs in files.items():
                last = 0
                for s, e in ivs:
                    require(e > s, "empty interval (%s, %s) in %s", s, e, ivs)
                    require(s >= last, "intervals of a file not sorted: %s", ivs)
                    last = e
                    for i in range(s, e):
                        at = (names.get(did), res.file_path[fid], i)
                        require(at not in got, "%s: sample %s is covered twice", q, at)
                        got[at] = props
        # The metadata of the result has to describe exactly the datasets and files used.
    want, total = {}, 0
    for name, path, i, _, props in w.samples():
        total += 1
        if world.selected(q, props):
            want[(name, path, i)] = props
    for at in want:
        require(at in got, "query %s misses sample %s with %s", q, at, want[at])
        eq(got[at], want[at], f"query {q}: properties of {at}")
    for at in got:
        if at not in want:
            fail("query %s covers sample %s, which does not match (its properties: %s)", q, at,
                 next((p for n, f, i, _, p in w.samples() if (n, f, i) == at), None))
    return len(want), total


def _run(case):
    cxx.install()
    labels = set()
    with scratch() as d:
        client = MixteraClient.from_directory(d)
        w = world.World(d)
        for spec in case["specs"]:
            with sut("register_dataset"):
                w.register(client, spec)
            labels.add(spec["type"])
        if case["reopen"]:
            client._mdc._connection.close()
            client = MixteraClient.from_directory(d)
        for n, q in enumerate(case["queries"]):
            k, total = check_query(client, w, q, f"job{n}")
            if 0 < k < total:
                labels.add("nt")
            if k == 0:
                labels.add("none")
        client._mdc._connection.close()
    return labels


SUBS = [Sub("select", _case, _run, quick=800, thorough=12000, shards=8, wall=120),
        Sub("large", _large_case, _run_large, quick=16, thorough=250, shards=8, cpu=120, wall=240)]
