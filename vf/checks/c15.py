"""C15: Parquet ranges return exactly the addressed rows."""
import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vf.checks.c14 import Recorder, ranges
from vf.core import Sub, eq, fail, scratch, sut
from vf.gen import ANY_TEXT

from mixtera.core.datacollection.datasets import ParquetDataset

RULE = ("1-3 Parquet files of 0-40 rows (and a few of 31990-70000 rows) with 1-4 columns (ints, floats, strings, lists, structs, "
        "dictionary-encoded, nulls), row groups of generated sizes, with valid range lists or one that is unsorted/overlapping; "
        "non-trivial = several row groups or rows skipped, or the list is invalid")

_TYPES = {"i": pa.int64(), "f": pa.float64(), "s": pa.string(), "l": pa.list_(pa.int32()),
          "t": pa.struct([("x", pa.int64()), ("y", pa.string())]), "d": pa.dictionary(pa.int32(), pa.string())}


def _val(kind):
    v = {"i": st.integers(-5, 10**6), "f": st.floats(allow_nan=False), "s": ANY_TEXT,
         "l": st.lists(st.integers(0, 9), max_size=3), "t": st.fixed_dictionaries({"x": st.integers(0, 9), "y": st.sampled_from("ab")}),
         "d": st.sampled_from(["u", "v", "w"])}[kind]
    return st.one_of(v, v, v, st.none())


@st.composite
def file_case(draw):
    if draw(st.integers(0, 120)) == 77:
        n = draw(st.sampled_from([31999, 32000, 32001, 65535, 65536, 65537, 70000]))
        rg = draw(st.sampled_from([n, 32000, 40000, 65536]))
        cols = None
    else:
        n = draw(st.integers(0, 40))
        rg = draw(st.sampled_from([1, 2, 3, 5, 7, 16, 100]))
        kinds = draw(st.lists(st.sampled_from("ifsltd"), min_size=1, max_size=3))
        cols = [[k, draw(st.lists(_val(k), min_size=min(n, 5), max_size=min(n, 5)))] for k in kinds]
    r = draw(ranges(n))
    if rg < n and draw(st.booleans()):
        # ranges that start and end next to row group boundaries
        pts = sorted({min(max(b + draw(st.integers(-1, 1)), 0), n) for b in range(0, n + 1, rg)} if n // rg < 60 else {0, n})
        pts = [p for p in pts if draw(st.integers(0, 2))]
        r = [[a, b] for a, b in zip(pts[::2], pts[1::2]) if a < b]
        if draw(st.booleans()):
            r = [[a, b] for a, b in zip(pts, pts[1:]) if a < b]
    return {"n": n, "rg": rg, "cols": cols, "ranges": r}


@st.composite
def case(draw):
    return {"files": draw(st.lists(file_case(), min_size=1, max_size=3)),
            "break": draw(st.sampled_from([None, None, None, "swap", "dup", "overlap"]))}


def parse(rec):
    return ("row", rec)


def run(c):
    labels = set()
    with scratch() as d:
        spec, want, files = {}, [], []
        for i, f in enumerate(c["files"]):
            data = {"id": pa.array(range(f["n"]), pa.int64())}
            for j, (k, vals) in enumerate(f["cols"] or []):
                data[f"c{j}"] = pa.array([vals[x % len(vals)] for x in range(f["n"])], _TYPES[k])
            table = pa.table(data)
            path = str(d / f"f{i}.parquet")
            pq.write_table(table, path, row_group_size=f["rg"])
            rows = table.to_pylist()
            spec[path] = [tuple(r) for r in f["ranges"]]
            want += [("row", rows[x]) for a, b in f["ranges"] for x in range(a, b)]
            files.append((path, rows))
            if f["ranges"] and (f["n"] > f["rg"] or f["ranges"][0][0] > 0 or len(f["ranges"]) > 1):
                labels.add("nt")
            if f["n"] > f["rg"]:
                labels.add("several-row-groups")
            if f["n"] > 30000:
                labels.add("large")
        if c["break"]:
            for path, r in spec.items():
                if c["break"] == "swap" and len(r) >= 2:
                    r[0], r[1] = r[1], r[0]
                elif c["break"] == "dup" and r:
                    r.insert(1, r[0])
                elif c["break"] == "overlap" and len(r) >= 2:
                    r[1] = (r[0][1] - 1, r[1][1])
                elif c["break"] == "overlap" and r and r[0][1] - r[0][0] > 1:
                    r.append((r[0][1] - 1, r[0][1]))
                else:
                    continue
                labels.update(["nt", "invalid"])
                try:
                    out = list(ParquetDataset.read_ranges_from_files(spec, parse, None))
                except Exception:  # noqa: BLE001
                    return labels
                fail("invalid ranges %s were not rejected but read as %s", r, [x[1]["id"] for x in out])
            return labels
        with sut("read_ranges_from_files"):
            got = list(ParquetDataset.read_ranges_from_files(spec, parse, None))
        if got != want:
            eq([g[1].get("id") for g in got], [w[1]["id"] for w in want], f"rows read for {[f['ranges'] for f in c['files']]}")
            eq(got, want, "content of the rows read")
        for path, rows in files:
            rec = Recorder()
            with sut("inform_metadata_parser"):
                ParquetDataset.inform_metadata_parser(path, rec)
            if rec.got != list(enumerate(rows)):
                eq([n for n, _ in rec.got], list(range(len(rows))), "row numbers at registration")
                eq(rec.got, list(enumerate(rows)), "records seen at registration")
    return labels


def _big(n, rg, *r):
    return {"files": [{"n": n, "rg": rg, "cols": None, "ranges": [list(x) for x in r]}], "break": None}


SUBS = [Sub("parquet", case, run, quick=2500, thorough=60000, shards=8,
            fixed=[_big(100001, 100001, [0, 100001]), _big(97000, 65536, [1, 97000]), _big(70000, 70000, [5, 6], [30, 64029], [64030, 70000])])]
