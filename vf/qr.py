"""Generated query results and mixtures, built directly on QueryResult, and readers for their chunks."""
import pyarrow as pa
from hypothesis import strategies as st

from vf.core import require
from vf.gen import weights

from mixtera.core.client.mixtera_client import ResultStreamingArgs
from mixtera.core.datacollection.datasets import Dataset
from mixtera.core.query.mixture import ArbitraryMixture, InferringMixture, MixtureKey, StaticMixture
from mixtera.core.query.query_result import QueryResult

LANGS = ["en", "de", "fr"]
TOPICS = ["law", "med", "bio"]


def identity(x):
    return x


class FakeDataset(Dataset):
    """A dataset whose samples are their own identity."""

    @staticmethod
    def read_ranges_from_files(ranges_per_file, parsing_func, server_connection):
        for f, ranges in ranges_per_file.items():
            last = 0
            for s, e in ranges:
                require(s >= last, "reader got unsorted or overlapping ranges for %s: %s", f, ranges)
                last = e
                for i in range(s, e):
                    yield parsing_func(f"{f}/{i}")

    @staticmethod
    def iterate_files(loc):
        return []

    @staticmethod
    def inform_metadata_parser(loc, metadata_parser):
        pass


class FakeMdc:
    """Answers what a QueryResult asks its data collection."""

    def _get_dataset_type_by_id(self, did):
        return FakeDataset

    def _get_dataset_func_by_id(self, did):
        return identity

    def _get_file_path_by_id(self, fid):
        return f"f{fid}"


@st.composite
def data(draw, max_comps=6, max_len=12, max_segs=22):
    combos = [(lang, t) for lang in LANGS + [None] for t in (None, "law", "med", "law+med", "bio")]
    combos = [c for c in combos if c != (None, None)]
    comps = draw(st.lists(st.sampled_from(combos), min_size=1, max_size=max_comps, unique=True))
    nf = draw(st.integers(1, 4))
    dids = sorted(draw(st.lists(st.integers(1, 3), min_size=nf, max_size=nf)))
    segs = []
    for _ in range(draw(st.integers(1, max_segs))):
        segs.append([draw(st.integers(0, nf - 1)), draw(st.integers(0, len(comps) - 1)),
                     draw(st.one_of(st.integers(1, 3), st.integers(1, max_len))), draw(st.sampled_from([0, 0, 1, 3]))])
    return {"comps": [[lang, t.split("+") if t else None] for lang, t in comps], "files": dids, "segs": segs}


def props_of(comp):
    p = {}
    if comp[0] is not None:
        p["lang"] = [comp[0]]
    if comp[1] is not None:
        p["topic"] = list(comp[1])
    return p


def table(d):
    """(interval table, {(dataset, file, row): component index})."""
    pos = {}
    rows = []
    owner = {}
    for f, c, ln, gap in d["segs"]:
        start = pos.get(f, 0) + gap
        did, fid = d["files"][f], 10 + f
        # adjacent segments of one component are one interval in a query's result
        if rows and gap == 0:
            prev = next((r for r in reversed(rows) if r["file_id"] == fid), None)
            if prev is not None and prev["c"] == c and prev["interval_end"] == start:
                prev["interval_end"] = start + ln
                for i in range(start, start + ln):
                    owner[(did, fid, i)] = c
                pos[f] = start + ln
                continue
        rows.append({"dataset_id": did, "file_id": fid, "group_id": len(rows), "interval_start": start,
                     "interval_end": start + ln, "c": c})
        for i in range(start, start + ln):
            owner[(did, fid, i)] = c
        pos[f] = start + ln
    rows.sort(key=lambda r: (r["dataset_id"], r["file_id"], r["interval_start"]))
    comps = d["comps"]
    t = pa.table({
        "dataset_id": pa.array([r["dataset_id"] for r in rows], pa.int32()),
        "file_id": pa.array([r["file_id"] for r in rows], pa.int32()),
        "group_id": pa.array([r["group_id"] for r in rows], pa.int64()),
        "interval_start": pa.array([r["interval_start"] for r in rows], pa.int64()),
        "interval_end": pa.array([r["interval_end"] for r in rows], pa.int64()),
        "lang": pa.array([comps[r["c"]][0] for r in rows], pa.string()),
        "topic": pa.array([comps[r["c"]][1] for r in rows], pa.list_(pa.string())),
    })
    return t, owner


def matches(key_props, comp):
    p = props_of(comp)
    for n, v in key_props:
        if n not in p:
            return False
        if not set(v) & set(p[n]):
            return False
    return True


@st.composite
def mix_key(draw, comps, disjoint=False):
    kind = draw(st.sampled_from(["comp", "comp", "lang", "topic", "multi", "absent", "all"] if not disjoint else ["lang"]))
    if disjoint:
        return [["lang", [draw(st.sampled_from(LANGS))]]]
    c = props_of(draw(st.sampled_from(comps)))
    items = sorted(c.items())
    if kind == "comp":
        return [[n, list(v)] for n, v in items]
    if kind == "lang":
        return [["lang", [draw(st.sampled_from(LANGS))]]]
    if kind == "topic":
        return [["topic", [draw(st.sampled_from(TOPICS))]]]
    if kind == "multi":
        n = draw(st.sampled_from(["lang", "topic"]))
        return [[n, draw(st.lists(st.sampled_from(LANGS if n == "lang" else TOPICS), min_size=2, max_size=2, unique=True))]]
    if kind == "all":
        return []
    return [["lang", ["xx"]]]


def key_content(k):
    return tuple(sorted((n, tuple(sorted(v))) for n, v in k))


@st.composite
def mixture(draw, comps, kinds=("static", "static", "static", "infer", "arbitrary"), strict=None, max_size=20, d=None):
    kind = draw(st.sampled_from(kinds))
    spec = {"kind": kind, "size": draw(st.one_of(st.integers(1, 6), st.integers(1, max_size)))}
    if kind == "arbitrary":
        return spec
    spec["strict"] = draw(st.booleans()) if strict is None else strict
    if kind == "static":
        mode = draw(st.sampled_from(["disjoint", "mixed", "comps"] + (["fit", "fit"] if d else [])))
        if mode == "fit":
            # row counts the data can fill, at least once
            have = {}
            for _, c, ln, _ in d["segs"]:
                have[c] = have.get(c, 0) + ln
            div = draw(st.integers(1, 4))
            rows = {c: draw(st.integers(1, max(have[c] // div, 1))) for c in
                    draw(st.lists(st.sampled_from(sorted(have)), min_size=1, max_size=4, unique=True))}
            spec["keys"] = [[[n, list(v)] for n, v in sorted(props_of(comps[c]).items())] for c in rows]
            spec["parts"] = list(rows.values())
            spec["size"] = sum(rows.values()) * (2 if draw(st.integers(0, 5)) == 3 else 1)
            return spec
        keys = []
        if mode == "comps":
            keys = [[[n, list(v)] for n, v in sorted(props_of(c).items())] for c in
                    draw(st.lists(st.sampled_from(comps), min_size=1, max_size=4, unique_by=str))]
        else:
            for _ in range(draw(st.integers(1, 4))):
                k = draw(mix_key(comps, disjoint=mode == "disjoint"))
                if key_content(k) not in [key_content(x) for x in keys]:
                    keys.append(k)
        spec["keys"] = keys
        spec["parts"] = draw(weights(len(keys)))
    return spec


def key_of(k):
    return MixtureKey({n: list(v) for n, v in k})


def build(spec):
    if spec["kind"] == "arbitrary":
        return ArbitraryMixture(spec["size"])
    if spec["kind"] == "infer":
        return InferringMixture(spec["size"], strict=spec["strict"])
    total = sum(spec["parts"])
    return StaticMixture(spec["size"], {key_of(k): p / total for k, p in zip(spec["keys"], spec["parts"])},
                         strict=spec["strict"])


def content(key):
    return tuple(sorted((n, tuple(sorted(map(str, v)))) for n, v in key.properties.items()))


def requested(mix):
    """{key content: rows} of the positive shares of a mixture."""
    return {content(k): n for k, n in mix.mixture_in_rows().items() if n > 0}


def chunk_samples(chunk):
    """{key content: [(dataset, file, row)]}; requires the ranges of a file to be ordered and disjoint."""
    out = {}
    for key, ds in chunk._result_index.items():
        lst = []
        for did, files in ds.items():
            for fid, ranges in files.items():
                last = -1
                for s, e in ranges:
                    require(s <= e, "inverted range %s in %s", (s, e), ranges)
                    require(s >= last, "ranges of one file are unsorted or overlap: %s", ranges)
                    last = e
                    lst += [(did, fid, i) for i in range(s, e)]
        k = content(key)
        require(k not in out, "two entries for key %s in a chunk", k)
        out[k] = lst
    return out


def new_result(d, mix, log_dir=None, stop_on_none=True):
    t, owner = table(d)
    kw = {} if log_dir is None else {"query_log_dir": log_dir}
    return QueryResult(FakeMdc(), t, mix, stop_on_none=stop_on_none, **kw), owner


def read_args(**kw):
    kw.setdefault("chunk_reading_prefetch_first_sample", False)
    return ResultStreamingArgs("job", **kw)


def read(chunk, **kw):
    chunk.configure_result_streaming(None, read_args(**kw))
    return list(chunk)


@st.composite
def history(draw, kinds=("static", "static", "static", "infer", "arbitrary"), strict=None, max_phases=4, **kw):
    d = draw(data(**kw))
    phases = []
    for i in range(draw(st.integers(1, max_phases))):
        phases.append({"mix": draw(mixture(d["comps"], kinds, strict, d=d)), "n": draw(st.integers(0, 4))})
    phases[-1]["n"] = None
    return {"data": d, "phases": phases, "stop_on_none": draw(st.booleans())}


def play(case, on_chunk, on_none, on_switch=None):
    """Draws chunks phase by phase; the last phase is drained. Returns (query result, owner map)."""
    d = case["data"]
    mix = build(case["phases"][0]["mix"])
    q, owner = new_result(d, mix, stop_on_none=case["stop_on_none"])
    budget = len(owner) + 60
    over = False
    for pi, ph in enumerate(case["phases"]):
        if pi:
            mix = build(ph["mix"])
            q.update_mixture(mix)
        if on_switch:
            on_switch(mix, ph["mix"], q, owner)
        drawn = 0
        fails = 0
        while ph["n"] is None or drawn < ph["n"]:
            require(budget > 0, "iteration does not end: more calls than samples")
            budget -= 1
            try:
                chunk = next(q)
            except StopIteration:
                over = True
                on_none(mix, ph["mix"], fails, True)
                break
            drawn += 1
            if chunk is None:
                over = True
                require(not case["stop_on_none"], "None handed out although the result stops at the end")
                on_none(mix, ph["mix"], fails, False)
                fails += 1
                if ph["n"] is not None:
                    break
                continue
            on_chunk(chunk, mix, ph["mix"])
    return q, owner, over


@st.composite
def large(draw, of):
    """The same case with every segment and every chunk as many times as large (see grown)."""
    return {"case": draw(of), "x": draw(st.sampled_from([13, 100, 700]))}


def grown(c):
    x, case = c["x"], c["case"]
    d = case["data"]
    d = dict(d, segs=[[f, k, ln * x + i * 7 % 5, gap * x] for i, (f, k, ln, gap) in enumerate(d["segs"])])
    grow = lambda m: dict(m, size=m["size"] * x)  # noqa: E731
    out = dict(case, data=d)
    if "phases" in case:
        out["phases"] = [dict(p, mix=grow(p["mix"])) for p in case["phases"]]
    elif "mix" in case:
        out["mix"] = grow(case["mix"])
        if case["window"] % 2:
            out["window"] = case["window"] * x
    else:
        out["size"] = case["size"] * x
    return out
