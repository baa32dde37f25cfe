"""C30: file discovery finds exactly the dataset's files."""
import bz2
import gzip
import json
import lzma
import os
from pathlib import Path

import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vf import world
from vf.core import Sub, eq, fail, require, scratch, sut

from mixtera.core.client import MixteraClient
from mixtera.core.client.mixtera_client import QueryExecutionArgs, ResultStreamingArgs
from mixtera.core.query import Query
from mixtera.core.query.mixture import ArbitraryMixture
from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset, WebDataset

RULE = ("directories (with glob characters, spaces, Unicode in their name) holding 0-10 entries: files with the type's extensions, "
        "near-miss extensions, other types' files, hidden files, symbolic links, subdirectories (also named like data files, with "
        "files inside); single files valid and invalid; missing locations; (location) a directory or file registered by plain path, "
        "Path object or file:// location and read through a query; non-trivial = matching and non-matching entries, or a "
        "refusal")

EXTS = {"jsonl": ["jsonl", "jsonl.gz", "jsonl.zst", "jsonl.xz", "jsonl.bz2", "jsonl.z"], "parquet": ["parquet"], "tar": ["tar"]}
NEAR = ["json", "jsonl_", "jsonlx", "txt", "jsonl.bak", "parquet.tmp", "parquetx", "tar.gz", "tarx", "jsonl.gz.part", "gz", "zst",
        "xjsonl", "xparquet", "xtar", "jsonl.lz4", "jsonl.tar.x"]
CLS = {"jsonl": JSONLDataset, "parquet": ParquetDataset, "tar": WebDataset}
_stem = st.lists(st.sampled_from(["a", "b", "1", " ", "[", "]", "*", "?", "-", "é", "中", ".", "'", "\\", "$", "jsonl", "~", "\n"]),
                 min_size=1, max_size=5).map("".join)


@st.composite
def entry(draw, kind):
    stem = draw(_stem)
    how = draw(st.sampled_from(["match", "match", "match", "near", "other", "dir", "dirmatch", "link", "noext"]))
    ext = draw(st.sampled_from(EXTS[kind]))
    if how in ("near", "dir"):
        ext = draw(st.sampled_from(NEAR))
    elif how == "other":
        ext = draw(st.sampled_from([e for k in EXTS for e in EXTS[k] if k != kind]))
    name = stem + ("" if how == "noext" else "." + ext)
    return [name, "dir" if how in ("dir", "dirmatch") else "link" if how == "link" else "file"]


@st.composite
def dir_case(draw):
    kind = draw(st.sampled_from(sorted(EXTS)))
    return {"kind": kind, "dir": draw(st.sampled_from(["d", "d [x]", "*", "é d", "x.jsonl", "x.tar", "a?b"])),
            "entries": draw(st.lists(entry(kind), max_size=10))}


def run_dir(c):
    labels = {c["kind"]}
    exts = ["." + e for e in EXTS[c["kind"]]]
    with scratch() as root:
        d = root / c["dir"]
        d.mkdir()
        (root / ("outside" + exts[0])).write_text("{}\n")
        want, seen, others = [], set(), 0
        for name, what in c["entries"]:
            p = d / name
            if name in seen or name in (".", "..") or p.name != name:
                continue
            if any(name == e for e in exts):  # nothing before the extension: not clearly a file of this type
                continue
            seen.add(name)
            if what == "dir":
                p.mkdir()
                (p / ("inner" + exts[0])).write_text("{}\n")
                others += 1
                continue
            if what == "link":
                target = root / f"target{len(seen)}"
                target.write_text("{}\n")
                p.symlink_to(target)
            else:
                p.write_text("{}\n")
            if any(name.endswith(e) for e in exts):
                want.append(str(p))
            else:
                others += 1
        with sut("iterate_files"):
            got = [str(x) for x in CLS[c["kind"]].iterate_files(str(d))]
        eq(sorted(got), sorted(want), f"files of {c['dir']!r} with entries {sorted(c['entries'])}")
        if want and others:
            labels.add("nt")
    return labels


@st.composite
def single_case(draw):
    kind = draw(st.sampled_from(["jsonl", "jsonl", "parquet", "parquet", "tar"]))
    return {"kind": kind, "state": draw(st.sampled_from(["valid", "valid", "invalid", "missing"])),
            "stem": draw(_stem), "ext": draw(st.sampled_from(["jsonl", "jsonl.gz", "jsonl.bz2", "jsonl.xz"] if kind == "jsonl" else
                                                             [kind])),
            "n": draw(st.integers(0, 4)), "bad": draw(st.integers(0, 4)), "pathlib": draw(st.booleans()),
            "how": draw(st.sampled_from(["garbage", "cut", "empty"]))}


def run_single(c):
    labels = {c["kind"], c["state"]}
    with scratch() as root:
        name = f"{c['stem']}.{c['ext']}"
        p = root / name
        if c["state"] != "missing":
            if c["kind"] == "jsonl":
                lines = [json.dumps({"i": i}) for i in range(c["n"])]
                if c["state"] == "invalid":
                    lines.insert(min(c["bad"], len(lines)), '{"i": ' if c["how"] != "empty" else "nope")
                data = "".join(x + "\n" for x in lines).encode()
                comp = {"gz": gzip.compress, "bz2": bz2.compress, "xz": lzma.compress}.get(c["ext"].split(".")[-1], bytes)
                p.write_bytes(comp(data))
            elif c["kind"] == "parquet":
                pq.write_table(pa.table({"x": list(range(c["n"]))}), str(p))
                if c["state"] == "invalid":
                    data = p.read_bytes()
                    p.write_bytes({"garbage": b"PAR?" * 10, "cut": data[:-5], "empty": b""}[c["how"]])
            else:
                p.write_bytes(b"\0" * 10240)
        # A neighbour that is none of this dataset's business.
        (root / f"neighbour.{c['ext']}").write_bytes(b"{}\n")
        loc = str(p)
        try:
            got = [str(x) for x in CLS[c["kind"]].iterate_files(loc)]
        except Exception as e:  # noqa: BLE001
            if c["state"] == "valid":
                fail("valid file %r refused: %s: %s", name, type(e).__name__, e)
            return labels | {"nt", "refused"}
        if c["state"] == "missing":
            fail("missing location accepted: %s", got)
        if c["state"] == "invalid":
            require(c["kind"] == "tar", "invalid file accepted: %s", got)
        eq(got, [loc], "files of a single-file location")
        if c["n"]:
            labels.add("nt")
    return labels


@st.composite
def loc_case(draw):
    return {"dir": draw(st.sampled_from(["d", "d [x]", "é d", "x.jsonl", "file:", "a#b", "a%20b"])),
            "files": draw(st.lists(st.tuples(_stem, st.sampled_from(["jsonl", "jsonl", "jsonl.gz", "parquet"]), st.integers(0, 3)).map(list),
                                   min_size=1, max_size=4)),
            "single": draw(st.booleans()), "form": draw(st.sampled_from(["url", "url", "path", "plain"])),
            "type": draw(st.sampled_from(["jsonl", "jsonl", "parquet"]))}


def run_location(c):
    with scratch() as root:
        d = root / c["dir"]
        d.mkdir()
        want = {}
        for i, (stem, ext, n) in enumerate(c["files"]):
            p = d / f"{stem}{i}.{ext}"
            rows = [{"text": f"{i}/{k}", "meta": "{}"} for k in range(n)]
            if ext == "parquet":
                pq.write_table(pa.table({"text": [r["text"] for r in rows], "meta": [r["meta"] for r in rows]}), str(p))
            else:
                data = "".join(json.dumps(r) + "\n" for r in rows).encode()
                p.write_bytes(gzip.compress(data) if ext.endswith("gz") else data)
            if ext.split(".")[0] == c["type"]:
                want[str(p)] = [r["text"] for r in rows]
        if not want:
            return set()
        loc = d
        if c["single"]:
            loc = d.parent / sorted(want)[0]
            want = {str(loc): want[str(loc)]}
        given = {"url": f"file://{loc}", "plain": str(loc), "path": loc}[c["form"]]
        client = MixteraClient.from_directory(root)
        try:
            client.register_metadata_parser("N", world.ParserN)
            with sut(f"registering the location {str(given)!r}"):
                done = client.register_dataset("ds", given, CLS[c["type"]],
                                               world.parse_parquet if c["type"] == "parquet" else world.parse_jsonl, "N")
            require(done is True, "registering the location %r failed", str(given))
            with sut("reading a registered location"):
                files = client._mdc._get_all_files()
                eq(sorted(str(f[3]) for f in files), sorted(want), f"files of the location {str(given)!r}")
                query = Query.for_job("job").select(None)
                client.execute_query(query, QueryExecutionArgs(mixture=ArbitraryMixture(2)))
                got = [x[-1] for x in client.stream_results(ResultStreamingArgs("job"))]
            eq(sorted(got), sorted(x for v in want.values() for x in v), f"samples of the location {str(given)!r}")
        finally:
            client._mdc._connection.close()
    return {"nt", c["form"]} if got else {c["form"]}


SUBS = [
    Sub("directory", dir_case, run_dir, quick=3000, thorough=100000, shards=5),
    Sub("single", single_case, run_single, quick=1200, thorough=30000, shards=3),
    Sub("location", loc_case, run_location, quick=160, thorough=4000, shards=4, cpu=30),
]
