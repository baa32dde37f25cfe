"""C17: the data collection is a consistent, durable registry."""
import json
import os

from hypothesis import strategies as st

from vf import world
from vf.core import Sub, eq, fail, require, scratch, sut

from mixtera.core.client import MixteraClient
from mixtera.core.datacollection.datasets import Dataset, JSONLDataset, ParquetDataset
from mixtera.core.query.mixture import ArbitraryMixture

RULE = ("a history of 1-12 operations (register a generated dataset under one of 4 names, register a registered location under another name, "
        "register something that must be refused, register with a conflicting schema, remove, reopen the database) against a dictionary model; after every "
        "operation names, existence, files, samples with metadata, reader functions and the version are compared; "
        "non-trivial = at least one refusal or removal happens while other datasets are registered; "
        "many: datasets of up to 4200 files, of which one may be invalid; non-trivial = more than 2000 files")

NAMES = ["ds", "Ds", "d_", "it's; --", "d\u00e9 \"x\""]
BAD = ["missing", "empty", "badjson", "badvalue", "nullreq", "listvalue", "unknown_parser", "generic", "nometa", "badgz"]


@st.composite
def _case(draw):
    ops = []
    for i in range(draw(st.integers(1, 12))):
        kind = draw(st.sampled_from(["reg", "reg", "reg", "again", "again", "bad", "bad", "conflict", "rm", "rm", "reopen"]))
        name = draw(st.integers(0, len(NAMES) - 1))
        if kind == "reg":
            ops.append(["reg", name, draw(world.dataset(i, max_files=2, max_runs=3, max_len=4))])
        elif kind == "bad":
            ops.append(["bad", name, draw(st.sampled_from(BAD)), draw(st.integers(0, 3))])
        elif kind == "conflict":
            p = draw(st.sampled_from(["D", "E"]))
            pal = draw(st.lists(world.conflict_meta(p), min_size=1, max_size=3))
            runs = draw(st.lists(st.tuples(st.integers(0, len(pal) - 1), st.integers(1, 3)), min_size=1, max_size=3))
            ops.append(["reg", name, {"name": "c", "type": "jsonl", "parser": p, "palette": pal,
                                      "files": [[list(r) for r in runs]], "single": False}])
        elif kind == "again":
            ops.append(["again", name, draw(st.integers(0, 3))])
        elif kind == "rm":
            ops.append(["rm", name])
        else:
            ops.append(["reopen"])
    return {"ops": ops}


class Registry:
    def __init__(self, d):
        self.d = d
        self.open()
        self.model = {}
        self.version = self.client._mdc.get_db_version()
        self.n = 0
        self.w = world.World(d)

    def open(self):
        self.client = MixteraClient.from_directory(self.d)
        for name, cls in world.PARSERS.items():
            self.client.register_metadata_parser(name, cls)

    def check(self, what, changed=False, deep=True):
        c = self.client
        with sut(what):
            eq(sorted(c.list_datasets()), sorted(self.model), f"{what}: list_datasets")
            for name in NAMES + ["", "nope", "DS", "_s", "%", "d%", "ds ", "ds*"]:
                require(c.check_dataset_exists(name) is (name in self.model), "%s: check_dataset_exists(%r) is wrong", what,
                        name)
            v = c._mdc.get_db_version()
        require(v >= self.version + (1 if changed else 0), "%s: version went from %s to %s", what, self.version, v)
        self.version = v
        if not deep:
            return
        with sut(what):
            files = c._mdc._get_all_files()
        eq(sorted((t.__name__, str(p)) for _, _, t, p in files),
           sorted((world.dtype(spec).__name__, p) for spec, paths, _ in self.model.values() for p in paths),
           f"{what}: registered files")
        require(len({f[0] for f in files}) == len(files), "%s: file ids repeat: %s", what, files)
        self.n += 1
        q = world.build_query(f"j{self.n}", [[]])
        with sut(f"{what}: query"):
            q.execute(c._mdc, ArbitraryMixture(5))
        res = q.results
        got = {}
        for key, ds in res._chunker_index.items():
            props = {k: tuple(sorted(v)) for k, v in key.properties.items()}
            for did, fs in ds.items():
                for fid, ivs in fs.items():
                    for s, e in ivs:
                        for i in range(s, e):
                            require((did, res.file_path[fid], i) not in got, "%s: sample twice", what)
                            got[(did, res.file_path[fid], i)] = (props, res.dataset_type[did].__name__,
                                                           res.parsing_func[did])
        want = {}
        per_dataset = []
        for name, (spec, paths, _) in self.model.items():
            per_dataset.append([])
            for fi, p in enumerate(paths):
                for i, (text, meta) in enumerate(world.rows_of(spec, fi)):
                    want[(p, i)] = (world.props_for(spec["parser"], meta), spec)
                    per_dataset[-1].append((p, i))
        groups = {}
        for did, p, i in got:
            groups.setdefault(did, []).append((p, i))
        eq(sorted(sorted(g) for g in groups.values()), sorted(sorted(g) for g in per_dataset if g),
           f"{what}: registered samples per dataset")
        for (did, *at), (sample_props, type_, f) in got.items():
            props, spec = want[tuple(at)]
            eq(sample_props, props, f"{what}: properties of sample {at}")
            eq(type_, world.dtype(spec).__name__, f"{what}: type of the dataset of {at}")
            eq(f({"text": "t"}) if spec["type"] == "parquet" else f('{"text": "t"}'), "t", f"{what}: parsing function")

    def register(self, name, spec, at=None):
        spec = dict(spec, name=name)
        loc, paths = at or world.write(self.d, spec)
        try:
            ok = self.client.register_dataset(name, loc, world.dtype(spec), world.func(spec), spec["parser"])
        except Exception as e:
            # Only a schema that contradicts the registered ones may be refused.
            require(spec["parser"] in "DE" or self.conflicts(spec), "registering %r raised %r", name, e)
            self.check(f"failed registration of {name!r}")
            return "refused"
        if name in self.model:
            require(ok is False, "registering a second dataset named %r gives %r", name, ok)
            self.check(f"duplicate registration of {name!r}")
            return "duplicate"
        if ok is False and (spec["parser"] in "DE" or self.conflicts(spec)):
            self.check(f"refused registration of {name!r}")
            return "refused"
        require(ok is True, "registering %r gives %r", name, ok)
        self.model[name] = (spec, paths, loc)
        self.declared.add(spec["parser"])
        self.check(f"registration of {name!r}", changed=True)
        return "registered"

    declared = None

    def conflicts(self, spec):
        """Whether columns declared by an earlier (even failed) registration contradict this schema."""
        return bool(self.declared & set("DE"))

    def bad(self, name, kind, k):
        self.n += 1
        d = self.d / f"bad{self.n}"
        d.mkdir()
        loc, parser, dtype, func = str(d), "C", JSONLDataset, world.parse_jsonl
        good = '{"text": "t", "meta": {"lang": "en", "need": "x"}}\n'
        lines = {"badjson": '{"text": \n', "badvalue": '{"text": "t", "meta": {"lang": "klingon", "need": "x"}}\n',
                 "nullreq": '{"text": "t", "meta": {"lang": "en", "need": null}}\n',
                 "listvalue": '{"text": "t", "meta": {"lang": "en", "need": ["x"]}}\n',
                 "nometa": '{"text": "t"}\n'}
        (d / "a.jsonl").write_text(good * 2)
        if kind == "missing":
            loc = str(d / "nothing")
        elif kind == "empty":
            os.remove(d / "a.jsonl")
            (d / "notes.txt").write_text("x")
        elif kind == "badgz":
            (d / "b.jsonl.gz").write_bytes(b"this is not gzip")
        elif kind == "unknown_parser":
            parser = "does not exist"
        elif kind == "generic":
            dtype = Dataset
        else:
            text = [good] * 4
            text[k] = lines[kind]
            (d / "b.jsonl").write_text("".join(text))
        try:
            ok = self.client.register_dataset(name, loc, dtype, func, parser)
        except Exception as e:
            ok = e
        require(ok is not True, "registering %r (%s) was accepted", name, kind)
        self.declared.add("C")
        self.check(f"refused registration ({kind}) of {name!r}")

    def remove(self, name):
        with sut(f"remove_dataset({name!r})"):
            ok = self.client.remove_dataset(name)
        require(ok is (name in self.model), "remove_dataset(%r) gives %r, registered: %s", name, ok, sorted(self.model))
        changed = self.model.pop(name, None) is not None
        self.check(f"removal of {name!r}", changed)


def _run(case):
    labels = set()
    with scratch() as d:
        r = Registry(d)
        r.declared = set()
        r.check("empty collection")
        for op in case["ops"]:
            others = len([n for n in r.model if len(op) > 1 and n != NAMES[op[1]]])
            if op[0] == "reg":
                if op[2]["parser"] in "DE":
                    r.declared.add(op[2]["parser"])
                how = r.register(NAMES[op[1]], op[2])
                labels.add(how)
                if how != "registered" and others:
                    labels.add("nt")
            elif op[0] == "bad":
                r.bad(NAMES[op[1]], op[2], op[3])
                labels.add(op[2])
                if others:
                    labels.add("nt")
            elif op[0] == "again":
                if not r.model:
                    continue
                of = sorted(r.model)[op[2] % len(r.model)]
                spec, paths, loc = r.model[of]
                r.register(NAMES[op[1]], spec, (loc, paths))
                labels.update({"nt", "same location"})
            elif op[0] == "rm":
                if NAMES[op[1]] in r.model and others:
                    labels.update({"nt", "removed"})
                r.remove(NAMES[op[1]])
            else:
                r.client._mdc._connection.close()
                r.open()
                labels.add("reopen")
                r.check("reopening")
        r.client._mdc._connection.close()
    return labels


def _run_pool(case):
    """The same with the worker processes that read files for registration outside of tests."""
    old = os.environ.pop("PYTEST_CURRENT_TEST", None)
    try:
        return _run(case)
    finally:
        if old is not None:
            os.environ["PYTEST_CURRENT_TEST"] = old


@st.composite
def _many_case(draw):
    n = draw(st.one_of(st.builds(lambda k, o: max(1, 2000 * k + o), st.integers(1, 2), st.integers(-2, 3)), st.integers(1, 4200)))
    bad = draw(st.sampled_from([None, None, None, 0, n // 2, n - 1]))
    return {"n": n, "langs": draw(st.lists(st.sampled_from(world.LANG_OPTIONS), min_size=2, max_size=5)),
            "rows": draw(st.lists(st.integers(1, 3), min_size=1, max_size=4)), "bad": bad}


def _run_many(case):
    """Datasets of thousands of files."""
    n, langs, rows = case["n"], case["langs"], case["rows"]
    labels = {"nt"} if n > 2000 else set()
    with scratch() as d:
        (d / "data").mkdir()
        want = {}
        for i in range(n):
            path = d / "data" / f"f{i}.jsonl"
            lang = langs[i % len(langs)]
            good = json.dumps({"text": "t", "meta": {"lang": lang, "need": "x"}}) + "\n"
            good *= rows[i % len(rows)]
            path.write_text(good + '{"text": \n' if case["bad"] == i else good)
            want.update({(str(path), r): lang for r in range(rows[i % len(rows)])})
        c = MixteraClient.from_directory(d)
        c.register_metadata_parser("C", world.PARSERS["C"])
        what = f"registering {n} files"
        try:
            ok = c.register_dataset("ds", str(d / "data"), JSONLDataset, world.parse_jsonl, "C")
        except Exception as e:
            require(case["bad"] is not None, "%s raised %r", what, e)
            ok = False
        with sut(what):
            names = c.list_datasets()
        if case["bad"] is not None:
            require(not ok and names == [], "%s, of which one is invalid: %s, registered: %s", what, ok, names)
            labels.add("refused")
        else:
            require(ok is True and names == ["ds"], "%s: %s, registered: %s", what, ok, names)
            q = world.build_query("j", [[]])
            with sut("query"):
                q.execute(c._mdc, ArbitraryMixture(1000))
                index, paths = q.results._chunker_index, q.results.file_path
            got = {}
            for key, ds in index.items():
                for fs in ds.values():
                    for fid, ivs in fs.items():
                        for s, e in ivs:
                            for i in range(s, e):
                                require((paths[fid], i) not in got, "%s: sample twice", what)
                                (got[paths[fid], i],) = key.properties["lang"]
            if got != want:
                missing, extra = sorted(want.keys() - got.keys()), sorted(got.keys() - want.keys())
                fail("%s: %s samples missing (%s...), %s unexpected (%s...), %s with wrong metadata", what, len(missing),
                     missing[:2], len(extra), extra[:2], sum(want.get(k) != v for k, v in got.items()))
        c._mdc._connection.close()
    return labels


SUBS = [Sub("many", _many_case, _run_many, quick=8, thorough=80, shards=4, wall=200, cpu=120,
            fixed=[{"n": 2003, "langs": ["en", "de"], "rows": [1, 2, 1], "bad": None}]),
        Sub("pool", _case, _run_pool, quick=24, thorough=400, shards=3, wall=140, cpu=120),
        Sub("history", _case, _run, quick=500, thorough=8000, shards=8, wall=120)]
