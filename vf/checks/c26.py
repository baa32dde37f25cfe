"""C26: stored query results load back unchanged."""
import json
import os
import pickle
import subprocess
import sys

import vf.boot  # noqa: F401  (also run as a program)

from hypothesis import strategies as st

from vf import job, qr
from vf.core import Sub, VERIF, eq, fail, require, scratch, sut
from vf.gen import ANY_TEXT, SPECIAL_TEXT

from mixtera.core.query.mixture import MixtureKey
from mixtera.core.query.query_result import QueryResult
from mixtera.utils.utils import deserialize_chunker_index, serialize_chunker_index

RULE = ("(index) chunker indexes with 0-7 keys (any characters, keys that match each other, the empty key) over several datasets "
        "and files, written and read (with the in-process pool and with worker processes); (result) query results with any "
        "mixture that are stored after 0-8 operations (chunks drawn, mixtures changed, feedback), loaded, and both continued "
        "with 1-10 further operations; (process) the same loaded in a fresh Python process with another hash seed; non-trivial = "
        "several keys and at least 2 chunks compared after loading")
ASSUMPTIONS = ["pickling is compared for results that have not handed out chunks yet (later it is documented to be unsupported); "
               "storing to disk is compared at any point"]


@st.composite
def _index_case(draw):
    val = st.one_of(st.sampled_from(["a", "b", "ab", "x,y", "k:v", "p;q", "/", ".."]), SPECIAL_TEXT, ANY_TEXT)
    keys = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.dictionaries(st.sampled_from(["lang", "topic", "n"]), st.lists(val, max_size=3), max_size=3))
        ident = sorted((n, sorted(v)) for n, v in k.items())
        if ident not in [i for i, _ in keys]:
            keys.append((ident, k))
    index = []
    for _, k in keys:
        files = draw(st.dictionaries(st.tuples(st.sampled_from([0, 1, 2, 10, 11, 100, 2**40]),
                                               st.sampled_from([0, 1, 2, 9, 10, 12, 2**33])),
                                     st.lists(st.tuples(st.integers(0, 5), st.integers(1, 2**34)), min_size=1, max_size=4),
                                     min_size=1, max_size=4))
        index.append([k, [[d, f, ivs] for (d, f), ivs in files.items()]])
    return {"index": json.loads(json.dumps(index)), "pool": draw(st.integers(0, 30)) == 17}


def _run_index(case):
    index, want = {}, []
    for k, files in case["index"]:
        ds = {}
        for d, f, gaps in files:
            pos, ivs = 0, []
            for gap, ln in gaps:
                ivs.append((pos + gap, pos + gap + ln))
                pos += gap + ln
            ds.setdefault(d, {})[f] = ivs
        index[MixtureKey(k)] = ds
        want.append((qr.content(MixtureKey(k)), ds))
    require(len(index) == len(want), "keys with different content fell together: %s", case["index"])
    old = os.environ.get("PYTEST_CURRENT_TEST")
    try:
        if case["pool"]:
            os.environ.pop("PYTEST_CURRENT_TEST", None)
        with scratch() as d, sut("storing and loading an index"):
            serialize_chunker_index(index, d / "i")
            back = deserialize_chunker_index(d / "i")
    finally:
        if old is not None:
            os.environ["PYTEST_CURRENT_TEST"] = old
    eq([qr.content(k) for k in back], [c for c, _ in want], "keys (in order)")
    for (k, ds), (c, w) in zip(back.items(), want):
        eq({d: {f: [tuple(i) for i in ivs] for f, ivs in fs.items()} for d, fs in ds.items()}, w, f"entries of {c}")
    return ({"nt"} if len(want) > 2 and sum(len(ds) for _, ds in want) > 3 else set()) | ({"pool"} if case["pool"] else set())


@st.composite
def _ops(draw, d, lo, hi, allow_next=True):
    ops = []
    for _ in range(draw(st.integers(lo, hi))):
        kind = draw(st.sampled_from(["next"] * 6 + ["mix", "fb"])) if allow_next else "mix"
        if kind == "next":
            ops.append(["next"])
        elif kind == "mix":
            ops.append(["mix", draw(job.mixture(d))])
        else:
            ops.append(["fb", draw(st.integers(0, 25)), draw(st.lists(st.integers(0, 9), min_size=1, max_size=8))])
    return ops


@st.composite
def _result_case(draw, hows=("disk", "disk", "disk", "pickle", "disk2", "pickledisk")):
    d = draw(qr.data())
    how = draw(st.sampled_from(list(hows)))
    return {"data": d, "mix": draw(job.mixture(d)), "how": how, "stop": draw(st.booleans()),
            "before": draw(_ops(d, 0, 8)) if "pickle" not in how else draw(_ops(d, 0, 1, allow_next=False)),
            "after": draw(_ops(d, 1, 10)), "log": draw(st.booleans())}


class Player:
    def __init__(self, q, mid=0):
        self.q = q
        self.mid = mid

    def play(self, ops):
        out = []
        fails = 0
        for op in ops:
            if op[0] == "next":
                if fails >= 4:
                    continue
                try:
                    chunk = next(self.q)
                except StopIteration:
                    chunk = None
                if chunk is None:
                    fails += 1
                    out.append(None)
                    continue
                fails = 0
                self.mid = max(self.mid, chunk.mixture_id)
                shown = job.show(chunk)
                shown["order"] = [[str(qr.content(k)), [[d, list(fs)] for d, fs in ds.items()]]
                                  for k, ds in chunk._result_index.items()]
                shown["samples"] = job.samples(chunk)
                out.append(job.jsonable(shown))
            elif op[0] == "mix":
                self.q.update_mixture(job.build(op[1]))
            else:
                self.q._mixture.process_client_feedback(job.report(self.q, op[1], op[2], self.mid))
        return out


def meta(q):
    return job.jsonable({"types": sorted((k, v.__name__) for k, v in q.dataset_type.items()),
                         "files": sorted(q.file_path.items()), "parse": sorted((k, f("x")) for k, f in q.parsing_func.items()),
                         "ids": [[str(qr.content(k)), i] for k, i in q._key_id_map.items()], "size": q.chunk_size})


def _store(q, how, d):
    """Yields the loaded copy."""
    if how == "pickle":
        return pickle.loads(pickle.dumps(q))
    if how == "pickledisk":
        q = pickle.loads(pickle.dumps(q))
    for i in range(2 if how == "disk2" else 1):
        (d / f"s{i}").mkdir()
        q.to_cache(d / f"s{i}")
        q = QueryResult.from_cache(d / f"s{i}")
    return q


def _prepare(case, d):
    log = None
    if case["log"]:
        log = d / "log"
    q, _ = qr.new_result(case["data"], job.build(case["mix"]), log, case["stop"])
    p = Player(q)
    before = p.play(case["before"])
    return q, p, before


def _labels(case, want):
    chunks = [x for x in want if x]
    labels = {case["how"]}
    if len(chunks) >= 2 and len({k for x in chunks for k, _, _ in x["content"]}) > 1:
        labels.add("nt")
    if any(o[0] == "next" for o in case["before"]):
        labels.add("midway")
    return labels


def _run_result(case):
    with scratch() as d:
        with sut("the original"):
            q, p, before = _prepare(case, d)
            m = meta(q)
        mid = p.mid
        with sut(f"storing and loading ({case['how']}) after {len(before)} requests"):
            copy = _store(q, case["how"], d)
            eq(meta(copy), m, "metadata and key ids")
        with sut("continuing the original"):
            want = p.play(case["after"])
        with sut("continuing the loaded result"):
            got = Player(copy, mid).play(case["after"])
    for i, (g, w) in enumerate(zip(got, want)):
        eq(g, w, f"request {i} after loading")
    return _labels(case, want)


def _run_process(case):
    with scratch() as d:
        with sut("the original"):
            q, p, _ = _prepare(case, d)
            m = meta(q)
            (d / "s").mkdir()
            if case["how"] == "pickle":
                (d / "s" / "q.pkl").write_bytes(pickle.dumps(q))
            else:
                q.to_cache(d / "s")
        spec = {"dir": str(d / "s"), "how": case["how"], "after": case["after"], "mid": p.mid}
        with sut("continuing the original"):
            want = p.play(case["after"])
        env = dict(os.environ, PYTHONHASHSEED="4321")
        r = subprocess.run([sys.executable, "-m", "vf.checks.c26"], input=json.dumps(spec), text=True, capture_output=True,
                           cwd=VERIF, env=env, timeout=120)
        lines = [ln for ln in r.stdout.splitlines() if ln.startswith("RESULT ")]
        require(lines, "loading in another process fails: %s", r.stderr[-1500:])
        got = json.loads(lines[0][7:])
    eq(got["meta"], m, "metadata and key ids in another process")
    for i, (g, w) in enumerate(zip(got["after"], want)):
        eq(g, w, f"request {i} after loading in another process")
    return _labels(case, want)


def _main():
    spec = json.load(sys.stdin)
    from pathlib import Path

    d = Path(spec["dir"])
    q = pickle.loads((d / "q.pkl").read_bytes()) if spec["how"] == "pickle" else QueryResult.from_cache(d)
    out = {"meta": meta(q)}
    out["after"] = Player(q, spec["mid"]).play(spec["after"])
    print("RESULT " + json.dumps(out))


SUBS = [Sub("index", _index_case, _run_index, quick=3000, thorough=60000, shards=3),
        Sub("result", _result_case, _run_result, quick=5000, thorough=120000, shards=6, cpu=30),
        Sub("process", lambda: _result_case(hows=("disk", "pickle")), _run_process, quick=24, thorough=400, shards=6, wall=140)]

if __name__ == "__main__":
    _main()
