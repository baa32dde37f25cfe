"""C14: JSONL ranges return exactly the addressed lines."""
import bz2
import gzip
import json
import lzma
import os
import subprocess

from hypothesis import strategies as st

from vf.core import Sub, eq, fail, require, scratch, scratch_root, sut
from vf.server import Server

from mixtera.core.datacollection.datasets import JSONLDataset
from mixtera.network.connection import ServerConnection

RULE = ("1-3 files of 0-12 (large: up to 36 000) lines (JSON records with any Unicode text incl. line separators, and arbitrary raw lines incl. "
        "blank ones), plain/gz (also multi-member)/bz2/xz/zst, with and without trailing newline, LF or CRLF, read directly or "
        "through a server, with valid range lists or one that is unsorted/overlapping; non-trivial = some line is skipped "
        "before or between ranges, or the list is invalid")

_chars = st.sampled_from(["a", "b", " ", "\u00e9", "\u4e2d", "\U0001f600", "\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c",
                          "\x1e", "\u00a0", "\ufeff", '"', "\\", ",", "{", "\t"])
_text = st.lists(_chars, max_size=6).map("".join)


@st.composite
def ranges(draw, n):
    cuts = sorted(draw(st.lists(st.integers(0, n), max_size=8)))
    out = [[a, b] for a, b in zip(cuts[::2], cuts[1::2]) if a < b]
    return out


@st.composite
def file_case(draw, large=False):
    n = draw(st.integers(0, 12))
    rep = draw(st.sampled_from([50, 400, 3000])) if large else 1
    raw = draw(st.integers(0, 2)) == 0
    lines = []
    for i in range(n):
        t = draw(_text)
        if raw and draw(st.booleans()):
            lines.append(["raw", t])
        else:
            lines.append(["json", f"{i}:{t}", draw(st.booleans())])
    comp = draw(st.sampled_from(["jsonl", "jsonl", "jsonl.gz", "jsonl.gz+", "jsonl.bz2", "jsonl.xz", "jsonl.zst"]))
    return {"lines": lines, "ext": comp, "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
            "final": draw(st.booleans()), "ranges": draw(ranges(n * rep)),
            "rep": rep}


@st.composite
def case(draw, large=False):
    files = draw(st.lists(file_case(large), min_size=1, max_size=3))
    c = {"files": files, "server": draw(st.integers(0, 3)) == 0, "break": None}
    if draw(st.integers(0, 3)) == 0:
        c["break"] = draw(st.sampled_from(["swap", "dup", "overlap"]))
    return c


_server = {}


def connection():
    s = _server.get(os.getpid())
    if s is None:
        d = scratch_root() / f"srv{os.getpid()}"
        d.mkdir()
        s = _server[os.getpid()] = Server(d)
    return ServerConnection("127.0.0.1", s.port)


def write_file(path, data, ext):
    if ext == "jsonl":
        path.write_bytes(data)
    elif ext == "jsonl.gz":
        path.write_bytes(gzip.compress(data))
    elif ext == "jsonl.gz+":
        k = len(data) // 2
        path.write_bytes(gzip.compress(data[:k]) + gzip.compress(data[k:]))
    elif ext == "jsonl.bz2":
        path.write_bytes(bz2.compress(data))
    elif ext == "jsonl.xz":
        path.write_bytes(lzma.compress(data))
    else:
        p = subprocess.run(["zstd", "-q", "-c"], input=data, capture_output=True, check=True)
        path.write_bytes(p.stdout)


class Recorder:
    def __init__(self):
        self.got = []

    def parse(self, line_number, payload, **kw):
        self.got.append((line_number, payload))


def run(c):
    labels = {"server"} if c["server"] else set()
    with scratch() as d:
        want, spec, payloads = [], {}, []
        for i, f in enumerate(c["files"]):
            path = d / f"f{i}.{f['ext'].rstrip('+')}"
            texts = []
            for ln in f["lines"]:
                texts.append(ln[1] if ln[0] == "raw" else json.dumps({"t": ln[1]}, ensure_ascii=ln[2]))
            texts *= f["rep"]
            data = f["eol"].join(texts)
            if texts and (f["final"] or texts[-1] == ""):
                data += f["eol"]
            write_file(path, data.encode("utf-8"), f["ext"])
            labels.add(f["ext"])
            spec[str(path)] = [tuple(r) for r in f["ranges"]]
            want += [texts[j] for a, b in f["ranges"] for j in range(a, b)]
            if f["ranges"] and f["ranges"][0][0] > 0 or any(a[1] < b[0] for a, b in zip(f["ranges"], f["ranges"][1:])):
                labels.add("nt")
            payloads.append((path, f, texts))
        conn = None
        if c["server"]:
            with sut("connecting"):
                conn = connection()

        def parse(line):
            # The line terminator is not part of the line.
            return "<" + line.rstrip("\n") + ">"

        if c["break"]:
            target = next((p for p, r in spec.items() if len(r) >= 2), None)
            if target is None:
                target = next((p for p, r in spec.items() if r and (c["break"] == "dup" or r[0][1] - r[0][0] > 1)), None)
                if target is None:
                    return labels
                r = spec[target]
                spec[target] = [r[0], (r[0][1] - 1, r[0][1])]
            else:
                r = spec[target]
                if c["break"] == "swap":
                    r[0], r[1] = r[1], r[0]
                elif c["break"] == "dup":
                    r.insert(1, r[0])
                else:
                    r[1] = (r[0][1] - 1, r[1][1])
            labels.update(["nt", "invalid"])
            try:
                out = list(JSONLDataset.read_ranges_from_files(spec, parse, conn))
            except Exception:  # noqa: BLE001
                return labels
            fail("invalid ranges %s were not rejected but read as %s", spec[target], out)
        with sut("read_ranges_from_files"):
            got = list(JSONLDataset.read_ranges_from_files(spec, parse, conn))
        eq(got, ["<" + w + ">" for w in want], f"lines read for {[f['ranges'] for f in c['files']]}")
        # The numbering used at registration.
        for path, f, texts in payloads:
            if any(ln[0] == "raw" for ln in f["lines"]):
                continue
            rec = Recorder()
            with sut("inform_metadata_parser"):
                JSONLDataset.inform_metadata_parser(path, rec)
            eq(rec.got, [(j, json.loads(t)) for j, t in enumerate(texts)], "records seen at registration")
            labels.add("registered")
    return labels


SUBS = [Sub("jsonl", case, run, quick=2500, thorough=60000, shards=8),
        Sub("large", lambda: case(large=True), run, quick=64, thorough=2000, shards=8, cpu=60)]
