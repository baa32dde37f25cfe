"""C11: reading a chunk yields each of its samples exactly once."""
import gzip
import json
import os
import signal
import types

import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vf import qr
from vf.core import Sub, eq, fail, require, scratch, scratch_root, sut
from vf.server import Server

from mixtera.core.client.server import ServerStub
from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset
from mixtera.core.query import result_chunk
from mixtera.core.query.query_result import QueryResult

RULE = ("chunks drawn from query results over generated JSONL, gzipped JSONL and Parquet files under C03's mixtures, read in simple and "
        "best-effort window mode with reading parallelism 1-4, prefetching on/off, generated window sizes, optionally through a server, "
        "with parsing functions returning text, falsy values, None or records, in full and resumed at a generated position; (failures) "
        "a reader that fails or is killed at a generated sample; non-trivial = at least two keys or files in a chunk, or a resume inside the chunk")

LINES = ["", "END_OF_STREAM", "plain", "tab\t\u2028x", "\u00e9\u4e2d", " trailing ", "null"]


def text_of(fid, i, salt):
    if salt and (i + fid) % 3 == 0:
        return LINES[(salt + i) % len(LINES)]
    return f"{fid}:{i}"


def jsonl_text(line):
    return json.loads(line)["t"]


def jsonl_odd(line):
    t = json.loads(line)["t"]
    return {"": None, "null": 0, "plain": ""}.get(t, t)


def jsonl_obj(line):
    return {"t": json.loads(line)["t"], "n": [1, 2]}


def pq_text(rec):
    return "pq " + rec["t"]


def pq_odd(rec):
    return {"": None, "null": 0, "plain": ""}.get(rec["t"], rec["t"])


def pq_obj(rec):
    return dict(rec, n=[3])


JSONL = {"text": jsonl_text, "odd": jsonl_odd, "obj": jsonl_obj}
PARQUET = {"text": pq_text, "odd": pq_odd, "obj": pq_obj}


class Failing:
    """A dataset whose reader fails at one sample."""

    at = None

    @staticmethod
    def read_ranges_from_files(ranges_per_file, parsing_func, server_connection):
        for f, ranges in ranges_per_file.items():
            for s, e in ranges:
                for i in range(s, e):
                    if [f, i] == Failing.at:
                        raise OSError("stand-in for a failing disk")
                    yield parsing_func(f"{f}/{i}")


class FilesMdc:
    def __init__(self, directory, d, parse, types_):
        self.directory = directory
        self.parse = parse
        self.types = types_
        rows = {}
        for f, _, ln, gap in d["segs"]:
            rows[f] = rows.get(f, 0) + ln + gap
        self.rows = {10 + f: n for f, n in rows.items()}
        self.did = {10 + f: did for f, did in enumerate(d["files"])}
        self.paths = {}

    def write(self, salt, extra):
        for fid, n in self.rows.items():
            kind = self.types[self.did[fid] - 1]
            texts = [text_of(fid, i, salt) for i in range(n + extra)]
            if kind == "parquet":
                p = self.directory / f"{fid}.parquet"
                pq.write_table(pa.table({"t": pa.array(texts, pa.string())}), p, row_group_size=3 + fid % 4)
            else:
                p = self.directory / (f"{fid}.jsonl" + (".gz" if kind == "gz" else ""))
                with (gzip.open if kind == "gz" else open)(p, "wt", encoding="utf-8", newline="\n") as fp:
                    for t in texts:
                        fp.write(json.dumps({"t": t}) + "\n")
            self.paths[fid] = str(p)

    def _get_dataset_type_by_id(self, did):
        return ParquetDataset if self.types[did - 1] == "parquet" else JSONLDataset

    def _get_dataset_func_by_id(self, did):
        return (PARQUET if self.types[did - 1] == "parquet" else JSONL)[self.parse]

    def _get_file_path_by_id(self, fid):
        return self.paths[fid]

    def expected(self, did, fid, i, salt):
        t = text_of(fid, i, salt)
        if self.types[did - 1] == "parquet":
            return PARQUET[self.parse]({"t": t})
        return JSONL[self.parse](json.dumps({"t": t}))


def canon(v):
    return json.dumps(v, sort_keys=True)


@st.composite
def reading(draw, dop, tunnel):
    return {"mode": draw(st.sampled_from(["simple", "window"])), "window": draw(st.integers(1, 25)),
            "dop": draw(dop), "prefetch": draw(st.booleans()), "tunnel": tunnel,
            "skip": draw(st.one_of(st.just(0), st.integers(0, 100)))}


@st.composite
def case(draw, dop=st.just(1), tunnel=False):
    d = draw(qr.data(max_comps=4, max_len=8, max_segs=10))
    mix = draw(qr.mixture(d["comps"], max_size=20, d=d))
    return {"data": d, "mix": mix, "parse": draw(st.sampled_from(["text", "odd", "obj"])), "salt": draw(st.integers(0, 6)),
            "types": draw(st.lists(st.sampled_from(["jsonl", "gz"] if tunnel else ["jsonl", "gz", "parquet", "parquet"]), min_size=3,
                                   max_size=3)),
            "extra": draw(st.integers(0, 2)), "reads": draw(st.lists(reading(dop, tunnel), min_size=1, max_size=3))}


SERVER = None


def client():
    global SERVER
    if SERVER is None or not SERVER.alive():
        root = scratch_root() / f"server{os.getpid()}"
        root.mkdir(exist_ok=True)
        SERVER = Server(root)
    return ServerStub("127.0.0.1", SERVER.port)


def read(chunk, r):
    chunk._samples_to_skip = r["skip"]
    args = qr.read_args(chunk_reading_mixture_type=r["mode"], chunk_reading_window_size=r["window"],
                        chunk_reading_window_best_effort=True, chunk_reading_degree_of_parallelism=r["dop"],
                        chunk_reading_prefetch_first_sample=r["prefetch"], tunnel_via_server=r["tunnel"])
    chunk.configure_result_streaming(client() if r["tunnel"] else None, args)
    return list(chunk)


def run(case):
    with scratch() as directory:
        return run_in(case, directory)


def run_in(case, directory):
    labels = set()
    mdc = FilesMdc(directory, case["data"], case["parse"], case["types"])
    mdc.write(case["salt"], case["extra"])
    t, _ = qr.table(case["data"])
    with sut("creating chunks"):
        q = QueryResult(mdc, t, qr.build(case["mix"]))
        chunks = []
        for c in q:
            chunks.append(c)
            if len(chunks) == 2:
                break
    for ci, chunk in enumerate(chunks):
        per = qr.chunk_samples(chunk)
        ids = {qr.content(k): i for k, i in chunk._key_id_map.items()}
        want = sorted((ids[k], canon(mdc.expected(d, f, i, case["salt"]))) for k, v in per.items() for d, f, i in v)
        if len(per) > 1 or len({f for v in per.values() for _, f, _ in v}) > 1:
            labels.add("nt")
        for r in case["reads"]:
            with sut(f"reading chunk {ci} with {r}"):
                full = read(chunk, dict(r, skip=0))
            got = sorted((k, canon(s)) for _, k, s in full)
            eq(got, want, f"(key id, sample) pairs of the chunk read with {r}")
            eq([i for i, _, _ in full], list(range(len(full))), f"sample numbers with {r}")
            if r["skip"]:
                skip = (r["skip"] * len(full) + 50) // 100
                with sut(f"resuming chunk {ci} with {r}"):
                    rest = read(chunk, dict(r, skip=skip))
                eq([(i, k, canon(s)) for i, k, s in rest], [(i, k, canon(s)) for i, k, s in full[skip:]],
                   f"samples when resuming at {skip} with {r}")
                if 0 < skip < len(full):
                    labels.update({"nt", "resumed"})
            labels.add(r["mode"])
            labels.add("tunnel" if r["tunnel"] else f"dop{min(r['dop'], 4)}")
    return labels


@st.composite
def fail_case(draw, dop, hows=()):
    hows = list(hows)
    d = draw(qr.data(max_comps=3, max_len=6, max_segs=6))
    return {"data": d, "size": draw(st.integers(1, 20)), "at": draw(st.integers(0, 10**6)), "read": draw(reading(dop, False)),
            "how": draw(st.sampled_from(["reader", "reader", "parse"] + hows))}


def run_fail(case):
    t, owner = qr.table(case["data"])
    all_samples = sorted(owner)
    did, fid, row = all_samples[case["at"] % len(all_samples)]
    Failing.at = [f"f{fid}", row] if case["how"] == "reader" else None

    me = os.getpid()

    def parse(x):
        if case["how"] == "parse" and x == f"f{fid}/{row}":
            raise ValueError("bad sample")
        if case["how"] == "kill" and x == f"f{fid}/{row}" and os.getpid() != me:
            os.kill(os.getpid(), signal.SIGKILL)
        return x

    mdc = types.SimpleNamespace(_get_dataset_type_by_id=lambda d: Failing, _get_dataset_func_by_id=lambda d: parse,
                                _get_file_path_by_id=lambda f: f"f{f}")
    with sut("creating chunks"):
        chunks = list(QueryResult(mdc, t, qr.build({"kind": "arbitrary", "size": case["size"]})))
    (chunk,) = [c for c in chunks for v in qr.chunk_samples(c).values() if (did, fid, row) in v]
    n = len(next(iter(qr.chunk_samples(chunk).values())))
    result_chunk.MULTIPROCESSING_TIMEOUT = 2
    got = []
    chunk.configure_result_streaming(None, qr.read_args(
        chunk_reading_mixture_type=case["read"]["mode"], chunk_reading_window_size=case["read"]["window"],
        chunk_reading_degree_of_parallelism=case["read"]["dop"], chunk_reading_prefetch_first_sample=case["read"]["prefetch"]))
    try:
        for x in chunk:
            got.append(x)
    except Exception:  # noqa: BLE001 - any error will do
        require(len(got) < n, "the error surfaces after all %s samples", n)
        return {"nt", case["how"]}
    fail("reading a chunk of %s samples whose sample %s fails (%s) ended after %s samples without an error", n, (fid, row), case["how"],
         len(got))


SUBS = [
    Sub("direct", case, run, quick=1600, thorough=60000, shards=8, cpu=30),
    Sub("parallel", lambda: case(dop=st.integers(2, 4)), run, quick=160, thorough=4000, shards=8, cpu=30),
    Sub("tunnel", lambda: case(tunnel=True), run, quick=160, thorough=4000, shards=4, cpu=30),
    Sub("failures", lambda: fail_case(st.just(1)), run_fail, quick=600, thorough=20000, shards=2, cpu=30),
    Sub("failures-parallel", lambda: fail_case(st.integers(2, 4), ["kill", "kill"]), run_fail, quick=32, thorough=400, shards=8, cpu=30),
]
