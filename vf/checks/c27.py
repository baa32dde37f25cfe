"""C27: property calculation covers each sample exactly once."""
import bz2
import gzip
import json
import lzma

from hypothesis import strategies as st

from vf.core import Sub, eq, require, scratch, sut
from vf.gen import ANY_TEXT, SPECIAL_TEXT

from mixtera.core.client import MixteraClient
from mixtera.core.datacollection.datasets import JSONLDataset
from mixtera.core.processing import ExecutionMode
from mixtera.core.processing.property_calculation.executor import PropertyCalculationExecutor
from vf import world

RULE = ("0-5 JSONL files (0-9 records of any text; plain, gzip, bz2, xz; with and without final newline) with arbitrary dataset and "
        "file ids or registered in a data collection, batch sizes 1-12, and a calculation returning strings, ints, floats or lists; "
        "(wrong) a calculation that returns too few or too many predictions; non-trivial = at least 2 batches, the last one partial "
        "or several files per batch")


@st.composite
def _case(draw, wrong=False):
    files = []
    for i in range(draw(st.integers(1 if wrong else 0, 5))):
        recs = draw(st.lists(st.one_of(st.sampled_from(["a", "b", ""]), SPECIAL_TEXT, ANY_TEXT), min_size=1 if wrong else 0, max_size=9))
        files.append({"did": draw(st.integers(1, 4)), "fid": draw(st.integers(0, 2**40)), "recs": recs,
                      "ext": draw(st.sampled_from(["jsonl"] * 4 + ["jsonl.gz", "jsonl.bz2", "jsonl.xz"])),
                      "nl": draw(st.booleans()), "ascii": draw(st.booleans())})
    return {"files": files, "batch": draw(st.integers(1, 12)), "kind": draw(st.sampled_from(["str", "int", "float", "list"])),
            "reg": draw(st.integers(0, 9)) == 0, "off": draw(st.sampled_from([-1, 1])), "loads": draw(st.integers(1, 2)),
            "twice": draw(st.integers(0, 9))}


def _write(d, case):
    out = []
    for i, f in enumerate(case["files"]):
        sub = d / f"d{f['did']}"
        sub.mkdir(exist_ok=True)
        p = sub / f"f{i}.{f['ext']}"
        lines = [json.dumps({"t": r, "n": n, "meta": {}}, ensure_ascii=f["ascii"]) for n, r in enumerate(f["recs"])]
        data = ("\n".join(lines) + ("\n" if f["nl"] and lines else "")).encode("utf-8")
        comp = {"jsonl": lambda x: x, "jsonl.gz": gzip.compress, "jsonl.bz2": bz2.compress, "jsonl.xz": lzma.compress}[f["ext"]]
        p.write_bytes(comp(data))
        out.append((p, lines, f))
    return out


def _predict(kind, rec):
    h = len(rec) * 7 + sum(map(ord, rec)) % 1000
    return {"str": f"p{h}", "int": h, "float": h / 8, "list": [f"p{h}", "x"]}[kind]


def _run(case, off=0):
    log = []
    setups = []
    with scratch() as d:
        written = _write(d, case)
        if case["reg"]:
            c = MixteraClient.from_directory(d)
            c.register_metadata_parser("N", world.ParserN)
            for did in sorted({f["did"] for f in case["files"]}):
                require(c.register_dataset(f"ds{did}", str(d / f"d{did}"), JSONLDataset, world.parse_jsonl, "N") is True,
                        "registration failed")
            with sut("_get_all_files"):
                files = c._mdc._get_all_files()
            by_path = {str(p): (lines, f) for p, lines, f in written}
            eq(sorted(str(x[3]) for x in files), sorted(by_path), "registered files")
            expect = [(fid, did, path, by_path[str(path)][0]) for fid, did, _, path in files]
            c._mdc._connection.close()
        else:
            files = [(f["fid"] * 8 + i, f["did"], JSONLDataset, str(p)) for i, (p, lines, f) in enumerate(written)]
            expect = [(files[i][0], files[i][1], str(p), lines) for i, (p, lines, f) in enumerate(written)]
            if case["twice"] < len(files):  # one location registered as two datasets
                fid, did, typ, p = files[case["twice"]]
                files.append((fid // 8 * 8 + 7, did + 10, typ, p))
                expect.append((*files[-1][:2], p, expect[case["twice"]][3]))

        def setup(env):
            setups.append(1)
            env.secret = 42

        def calc(env, batch):
            require(env.secret == 42, "the calculation does not see the setup")
            recs = [json.loads(str(x)) for x in batch["data"]]
            log.append([(int(f), int(ds), int(ln), r["n"], r["t"]) for f, ds, ln, r in
                        zip(batch["file_id"], batch["dataset_id"], batch["line_id"], recs)])
            eq([len(batch[k]) for k in ("data", "file_id", "dataset_id", "line_id")], [len(recs)] * 4, "columns of a batch")
            out = [_predict(case["kind"], r["t"]) for r in recs]
            if off < 0:
                out = out[:-1]
            elif off > 0:
                out.append(_predict(case["kind"], ""))
            return out

        if off:
            try:
                ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, case["batch"], setup, calc)
                ex.load_data(files, True)
                res = ex.run()
            except Exception:
                return {"nt"}
            require(False, "predictions that do not fit the samples are accepted: %r", res)
        cut = len(files) // 2 if case["loads"] == 2 else len(files)
        with sut("calculating a property"):
            ex = PropertyCalculationExecutor.from_mode(ExecutionMode.LOCAL, 1, case["batch"], setup, calc)
            ex.load_data(files[:cut], True)
            if cut < len(files):
                ex.load_data(files[cut:], False)
            res = ex.run()
    eq(len(setups), 1, "number of setups")
    for b in log:
        require(1 <= len(b) <= case["batch"], "batch of %d samples, batch size %d", len(b), case["batch"])
    want = [(fid, did, n, json.loads(ln)["t"]) for fid, did, _, lines in expect for n, ln in enumerate(lines)]
    eq([(f, ds, ln, t) for b in log for f, ds, ln, n, t in b], want, "samples passed to the calculation")
    eq([(int(r["file_id"]), int(r["dataset_id"]), int(r["sample_id"]), r["property_value"]) for r in res],
       [(f, ds, n, _predict(case["kind"], t)) for f, ds, n, t in want], "predictions")
    labels = {"registered"} if case["reg"] else set()
    if len(log) >= 2 and (len(log[-1]) < case["batch"] or any(len({x[0] for x in b}) > 1 for b in log)):
        labels.add("nt")
    return labels


SUBS = [Sub("calc", _case, _run, quick=3000, thorough=60000, shards=6, wall=100),
        Sub("wrong", lambda: _case(wrong=True), lambda c: _run(dict(c, reg=False), off=c["off"]), quick=300, thorough=2000, shards=2)]
