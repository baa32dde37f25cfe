"""C16: WebDataset ranges return exactly the addressed samples."""
import gzip
import io
import json
import pickle
import tarfile

import numpy as np
from hypothesis import strategies as st

from vf.checks.c14 import Recorder, ranges
from vf.core import Sub, eq, fail, require, scratch, sut
from vf.gen import ANY_TEXT

from mixtera.core.datacollection.datasets import WebDataset

RULE = ("1-2 tar shards of 1-10 samples with 1-4 members each (txt, cls, json, npy, pkl, undecoded; gzip-compressed "
        "variants of one or several gzip members; keys in directories; directory entries and members without extension in between), with valid range lists or "
        "one that is unsorted/overlapping; non-trivial = samples skipped or the list is invalid")

EXTS = ["txt", "text", "cls", "cls2", "json", "npy", "pkl", "pickle", "bin", "mp3", "jpeg", "png", "ppm"]


@st.composite
def member(draw):
    ext = draw(st.sampled_from(EXTS))
    v = {"txt": ANY_TEXT, "text": ANY_TEXT, "cls": st.integers(0, 10**5), "cls2": st.integers(-3, 9),
         "json": st.one_of(st.integers(0, 9), ANY_TEXT, st.dictionaries(st.sampled_from("abc"), st.lists(st.integers(0, 3), max_size=2))),
         "npy": st.lists(st.integers(0, 255), max_size=4), "pkl": st.lists(ANY_TEXT, max_size=2),
         "png": st.lists(st.integers(0, 255), min_size=6, max_size=6), "ppm": st.lists(st.integers(0, 255), min_size=6, max_size=6),
         "pickle": st.dictionaries(st.sampled_from("ab"), st.integers(0, 3))}.get(ext, st.binary(max_size=600).map(bytes.hex))
    pre = draw(st.sampled_from(["", "", "", "seg.", "left."]))
    gz = draw(st.integers(0, 4)) == 0
    # the compressed content may consist of several gzip members
    cuts = draw(st.lists(st.integers(0, 20), max_size=3)) if gz else []
    return [pre + ext + (".gz" if gz else ""), ext, draw(v), cuts]


@st.composite
def shard(draw):
    samples = []
    for i in range(draw(st.integers(1, 10))):
        ms = {}
        for _ in range(draw(st.integers(1, 4))):
            m = draw(member())
            ms[m[0]] = m
        samples.append({"key": draw(st.sampled_from(["", "d/", "a.b/", "d/e/", "./"])) + draw(st.sampled_from(["s", "_", "9", "é"])) + str(i),
                        "members": list(ms.values()), "noise": draw(st.sampled_from([None, None, None, "dir", "noext"]))})
    return {"samples": samples, "ranges": draw(ranges(len(samples)))}


@st.composite
def case(draw):
    return {"shards": draw(st.lists(shard(), min_size=1, max_size=2)),
            "break": draw(st.sampled_from([None, None, None, "swap", "dup", "overlap"]))}


def encode(ext, v):
    if ext in ("txt", "text"):
        return v.encode()
    if ext in ("cls", "cls2"):
        return str(v).encode()
    if ext == "json":
        return json.dumps(v).encode()
    if ext == "npy":
        b = io.BytesIO()
        np.save(b, np.array(v, dtype=np.int16))
        return b.getvalue()
    if ext in ("pkl", "pickle"):
        return pickle.dumps(v)
    if ext in ("png", "ppm"):
        from PIL import Image

        b = io.BytesIO()
        Image.fromarray(np.array(v, dtype=np.uint8).reshape(1, 2, 3)).save(b, format=ext)
        return b.getvalue()
    return bytes.fromhex(v)


def write_shard(path, sh):
    with tarfile.open(path, "w", format=tarfile.USTAR_FORMAT) as t:
        for i, s in enumerate(sh["samples"]):
            if s["noise"]:
                ti = tarfile.TarInfo(f"noise{i}")
                if s["noise"] == "dir":
                    ti.type = tarfile.DIRTYPE
                t.addfile(ti)
            for name, ext, v, *rest in s["members"]:
                data = encode(ext, v)
                if name.endswith(".gz"):
                    at = [0, *sorted(rest[0] if rest else []), max(len(data), 21)]
                    data = b"".join(gzip.compress(data[a:b]) for a, b in zip(at, at[1:]))
                ti = tarfile.TarInfo(f"{s['key']}.{name}")
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))


def plain(sample):
    """A sample with streams and arrays turned into comparable values."""
    out = {}
    for k, v in sample.items():
        if hasattr(v, "read"):
            v = ["bytes", v.read().hex()]
        elif isinstance(v, np.ndarray):
            v = ["array", str(v.dtype), v.tolist()]
        elif type(v).__name__ == "Tensor":
            v = ["image", list(v.shape), [round(float(x) * 255) for x in v.permute(1, 2, 0).flatten()]]
        out[k] = v
    return out


def expected(s, images=True):
    out = {"__key__": s["key"]}
    for name, ext, v, *_ in s["members"]:
        if ext == "npy":
            v = ["array", "int16", v]
        elif ext in ("bin", "mp3", "jpeg"):
            v = ["bytes", v]
        elif ext in ("png", "ppm"):
            v = ["image", [3, 1, 2], v] if images else ["bytes", encode(ext, v).hex()]
        out["." + name] = v
    return out


def run(c):
    labels = set()
    with scratch() as d:
        spec, want, files = {}, [], []
        for i, sh in enumerate(c["shards"]):
            path = str(d / f"f{i}.tar")
            write_shard(path, sh)
            spec[path] = [tuple(r) for r in sh["ranges"]]
            want += [expected(sh["samples"][x]) for a, b in sh["ranges"] for x in range(a, b)]
            files.append((path, [expected(s, images=False) for s in sh["samples"]]))
            if sh["ranges"] and (sh["ranges"][0][0] > 0 or len(sh["ranges"]) > 1):
                labels.add("nt")
        if any(m[0].endswith(".gz") for sh in c["shards"] for s in sh["samples"] for m in s["members"]):
            labels.add("compressed")
        if c["break"]:
            for path, r in spec.items():
                if c["break"] == "swap" and len(r) >= 2:
                    r[0], r[1] = r[1], r[0]
                elif c["break"] == "dup" and r:
                    r.insert(1, r[0])
                elif c["break"] == "overlap" and len(r) >= 2:
                    r[1] = (r[0][1] - 1, r[1][1])
                else:
                    continue
                labels.update(["nt", "invalid"])
                try:
                    out = list(WebDataset.read_ranges_from_files(spec, lambda s: s["__key__"], None))
                except Exception:  # noqa: BLE001
                    return labels
                fail("invalid ranges %s were not rejected but read as %s", r, out)
            return labels
        with sut("read_ranges_from_files"):
            got = list(WebDataset.read_ranges_from_files(spec, plain, None))
        eq([g.get("__key__") for g in got], [w["__key__"] for w in want],
           f"samples read for {[sh['ranges'] for sh in c['shards']]}")
        for g, w in zip(got, want):
            eq(g, w, "content of a sample")
        for path, samples in files:
            rec = Recorder()
            with sut("inform_metadata_parser"):
                WebDataset.inform_metadata_parser(path, rec)
            eq([n for n, _ in rec.got], list(range(len(samples))), "sample numbers at registration")
            for (_, g), w in zip(rec.got, samples):
                eq(plain(g), w, "content of a sample at registration")
    return labels


SUBS = [Sub("tar", case, run, quick=2500, thorough=60000, shards=8)]
