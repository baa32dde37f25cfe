"""Generated datasets on disk, registered through a client, with a plain Python model of what they contain."""
import json
import gzip

import pyarrow as pa
import pyarrow.parquet as pq
from hypothesis import strategies as st

from vf.core import require
from vf.gen import weights

from mixtera.core.datacollection.datasets import JSONLDataset, ParquetDataset
from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty

LANG_OPTIONS = ["en", "de", "c++", "it's", 'q"q', "a,b", "x;y", "Zz", "\u00e9"]
GRADE_OPTIONS = ["g1", "g2", "g10", "k:v", ""]


class ParserA(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("lang", "ENUM", False, True, set(LANG_OPTIONS)),
                MetadataProperty("topic", "STRING", True, True),
                MetadataProperty("src", "STRING", False, True),
                MetadataProperty("grade", "ENUM", True, True, set(GRADE_OPTIONS))]

    def parse(self, line_number, payload, **kwargs):
        meta = payload["meta"]
        if isinstance(meta, str):
            meta = json.loads(meta)
        self.add_metadata(line_number, **meta)


class ParserB(ParserA):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("topic", "STRING", True, True),
                MetadataProperty("extra", "STRING", False, True),
                MetadataProperty("src", "STRING", False, True)]


class ParserC(ParserA):
    @classmethod
    def get_properties(cls):
        return [MetadataProperty("lang", "ENUM", False, False, set(LANG_OPTIONS)),
                MetadataProperty("need", "STRING", False, False)]


class ParserN(ParserA):
    """No properties at all."""

    @classmethod
    def get_properties(cls):
        return []


PARSERS = {"A": ParserA, "B": ParserB, "C": ParserC, "N": ParserN}
FIELDS = {p: {q.name: q for q in c.get_properties()} for p, c in PARSERS.items()}
MULTI = {"topic", "grade"}
VALUE = st.one_of(st.sampled_from(["a", "b", "ab", "B", "a", "b"]),
                  st.sampled_from(["", " ", "it's", "x,y", "p;q", "k:v", "\u00e9", "%", '"q"', "back\\slash", "NULL",
                                   "[a]", "1", "10", "9", "\u00df", "\n", "a' OR '1'='1", "?", "$1", "\U0001f600", "a "]))


def _value(field):
    if field == "lang":
        return st.sampled_from(LANG_OPTIONS)
    if field == "grade":
        return st.sampled_from(GRADE_OPTIONS)
    return VALUE


@st.composite
def _meta(draw, parser, simple=False):
    meta = {}
    for name, prop in FIELDS[parser].items():
        if prop.nullable and draw(st.integers(0, 2)) == 0:
            if draw(st.booleans()):
                meta[name] = None
            continue
        if prop.multiple and draw(st.integers(0, 3)) != 0:
            meta[name] = draw(st.lists(_value(name), min_size=0 if draw(st.integers(0, 5)) == 0 else 1, max_size=3))
        else:
            meta[name] = draw(_value(name))
    return meta


@st.composite
def dataset(draw, index, max_files=3, max_runs=6, max_len=8, types=("jsonl", "jsonl", "parquet", "gz")):
    parser = draw(st.sampled_from(["A", "A", "A", "B", "B", "C", "N"]))
    palette = draw(st.lists(_meta(parser), min_size=1, max_size=3))
    for _ in range(draw(st.integers(0, 2))):
        # A relative: the same values written down in another order, or one value changed.
        rel = dict(draw(st.sampled_from(palette)))
        if rel:
            f = draw(st.sampled_from(sorted(rel)))
            if isinstance(rel[f], list) and len(rel[f]) > 1 and draw(st.booleans()):
                rel[f] = rel[f][::-1]
            elif rel[f] is not None:
                rel[f] = [draw(_value(f)) for _ in rel[f]] if isinstance(rel[f], list) else draw(_value(f))
        palette.append(rel)
    files = []
    for _ in range(draw(st.integers(1, max_files))):
        runs = draw(st.lists(st.tuples(st.integers(0, len(palette) - 1), st.integers(1, max_len)), max_size=max_runs,
                                  min_size=draw(st.integers(0, 3))))
        files.append([list(r) for r in runs])
    name = draw(st.sampled_from([f"ds{index}", f"ds{index}", f"it's {index}", f"D\u00e9 \"{index}\" ;--"]))
    return {"name": name, "type": draw(st.sampled_from(list(types))), "parser": parser, "palette": palette,
            "files": files, "single": draw(st.integers(0, 6)) == 0}


def datasets(max_datasets=3, **kw):
    return st.integers(1, max_datasets).flatmap(lambda n: st.tuples(*[dataset(i, **kw) for i in range(n)]).map(list))


def parse_jsonl(line):
    return json.loads(line)["text"]


def parse_parquet(row):
    return row["text"]


def normal(name, value):
    """Property values as the samples of a key have them."""
    if name in MULTI:
        return tuple(sorted(value if isinstance(value, list) else [value]))
    return (value,)


def rows_of(spec, fi):
    """The samples of a file: (text, meta)."""
    out = []
    for p, n in spec["files"][fi]:
        for _ in range(n):
            out.append((f"{spec['name']}/{fi}/{len(out)}", spec["palette"][p]))
    return out


def write(root, spec):
    """Write the dataset's files; returns (location, [path per file])."""
    d = root / f"data_{sum(1 for p in root.iterdir() if p.name.startswith('data_'))}"
    d.mkdir()
    paths = []
    for fi in range(len(spec["files"])):
        rows = rows_of(spec, fi)
        if spec["type"] == "parquet":
            path = d / f"f{fi}.parquet"
            t = pa.table({"text": pa.array([r[0] for r in rows], pa.string()),
                          "meta": pa.array([json.dumps(r[1]) for r in rows], pa.string())})
            pq.write_table(t, path, row_group_size=3 if len(rows) < 1000 else 4099)
        else:
            text = "".join(json.dumps({"text": r[0], "meta": r[1]}) + "\n" for r in rows)
            if spec["type"] == "gz":
                path = d / f"f{fi}.jsonl.gz"
                with gzip.open(path, "wt", encoding="utf-8") as f:
                    f.write(text)
            else:
                path = d / f"f{fi}.jsonl"
                path.write_text(text, encoding="utf-8")
        paths.append(str(path))
    # (A single-file location is only looked at like this for formats whose files are validated.)
    if spec["single"] and len(paths) == 1 and spec["type"] == "jsonl":
        return paths[0], paths
    return str(d), paths


def dtype(spec):
    return ParquetDataset if spec["type"] == "parquet" else JSONLDataset


def func(spec):
    return parse_parquet if spec["type"] == "parquet" else parse_jsonl


class World:
    """What a data collection should contain."""

    def __init__(self, root):
        self.root = root
        self.datasets = {}  # name -> (spec, [paths])
        self.parsers = set()
        self.declared = {}

    def add_parsers(self, client, specs):
        for p in sorted({s["parser"] for s in specs} - self.parsers):
            client.register_metadata_parser(p, PARSERS[p])
            self.parsers.add(p)

    def register(self, client, spec):
        self.add_parsers(client, [spec])
        loc, paths = write(self.root, spec)
        ok = client.register_dataset(spec["name"], loc, dtype(spec), func(spec), spec["parser"])
        require(ok is True, "registering dataset %r failed: %r", spec["name"], ok)
        self.datasets[spec["name"]] = (spec, paths)
        self.declared.update(FIELDS[spec["parser"]])

    def samples(self):
        """(dataset name, path, sample number, text, {property: tuple of values})."""
        for name, (spec, paths) in self.datasets.items():
            for fi, path in enumerate(paths):
                for i, (text, meta) in enumerate(rows_of(spec, fi)):
                    props = {k: normal(k, v) for k, v in meta.items() if v is not None}
                    yield name, path, i, text, props

    def fields(self):
        return sorted(self.declared)


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def holds(cond, props):
    field, op, value = cond
    have = props.get(field)
    if value is None:
        return (have is None) == (op == "==")
    if have is None:
        return False
    values = value if isinstance(value, list) else [value]
    if op == "!=":
        return not any(v in have for v in values)
    if op == "==":
        return any(v in have for v in values)
    return any(OPS[op](have[0], v) for v in values)


def selected(query, props):
    return any(all(holds(c, props) for c in select) for select in query)


@st.composite
def condition(draw, fields, palettes):
    field = draw(st.sampled_from(fields))
    ops = ["==", "==", "!="] + (["<", "<=", ">", ">="] if field not in MULTI else [])
    op = draw(st.sampled_from(ops))
    if op in ("==", "!=") and draw(st.integers(0, 6)) == 0:
        return [field, op, None]
    present = [x for p in palettes for m in [p.get(field)] if m is not None for x in (m if isinstance(m, list) else [m])]

    def one():
        if present and draw(st.integers(0, 3)) != 0:
            return draw(st.sampled_from(present))
        return draw(st.one_of(_value(field), VALUE))

    if draw(st.integers(0, 2)) == 0:
        return [field, op, [one() for _ in range(draw(st.integers(1, 3)))]]
    return [field, op, one()]


@st.composite
def query(draw, specs):
    """A list of selects, each a list of conditions; [[]] selects everything."""
    fields = sorted({f for s in specs for f in FIELDS[s["parser"]]})
    if not fields or draw(st.integers(0, 9)) == 0:
        return [[]]
    palettes = [m for s in specs for m in s["palette"]]
    return draw(st.lists(st.lists(condition(fields, palettes), min_size=1, max_size=3), min_size=1, max_size=3))


def build_query(job, q):
    from mixtera.core.query import Query

    out = Query.for_job(job)
    for select in q:
        if not select:
            out = out.select(None)
        elif len(select) == 1:
            out = out.select(tuple(select[0]))
        else:
            out = out.select([tuple(c) for c in select])
    return out


class ParserD(ParserA):
    """Declares a property with another cardinality than ParserA and ParserB."""

    @classmethod
    def get_properties(cls):
        return [MetadataProperty("src", "STRING", True, True), MetadataProperty("extra", "STRING", False, True)]


class ParserE(ParserA):
    """Declares an enumeration with other options than ParserA and ParserC."""

    @classmethod
    def get_properties(cls):
        return [MetadataProperty("lang", "ENUM", False, True, {"en", "xx", "de"}),
                MetadataProperty("topic", "STRING", True, True)]


PARSERS.update(D=ParserD, E=ParserE)

FIELDS.update({p: {q.name: q for q in PARSERS[p].get_properties()} for p in "DE"})


@st.composite
def conflict_meta(draw, parser):
    meta = {}
    for name, prop in FIELDS[parser].items():
        if draw(st.integers(0, 3)) == 0:
            continue
        if name == "lang":
            meta[name] = draw(st.sampled_from(["en", "xx", "de"]))
        elif prop.multiple:
            meta[name] = draw(st.lists(VALUE, min_size=1, max_size=2))
        else:
            meta[name] = draw(VALUE)
    return meta


def props_for(parser, meta):
    return {k: tuple(sorted(v if isinstance(v, list) else [v])) for k, v in meta.items() if v is not None}


@st.composite
def mixture(draw, specs, dynamic=True, max_size=8):
    """A mixture (in the format of vf.job) over the property values of the datasets."""
    kind = draw(st.sampled_from(["arbitrary", "infer", "static", "static", "static"] +
                                (["dynamic", "dynamic", "schedule"] if dynamic else [])))
    size = draw(st.integers(1, max_size))
    if kind == "arbitrary":
        return {"kind": kind, "size": size}
    if kind == "infer":
        return {"kind": kind, "size": size, "strict": draw(st.booleans())}
    if kind == "dynamic":
        init = draw(mixture(specs, dynamic=False, max_size=max_size).filter(lambda m: m["kind"] != "arbitrary"))
        return {"kind": kind, "init": init, "size": init["size"], "strict": draw(st.booleans()),
                "every": draw(st.sampled_from([1, 1, 2]))}
    if kind == "schedule":
        starts = draw(st.lists(st.integers(0, 20), min_size=1, max_size=3, unique=True))
        return {"kind": kind, "size": size,
                "entries": [[s, draw(mixture(specs, dynamic=False, max_size=max_size))] for s in starts]}
    keys = []
    for m in draw(st.lists(st.sampled_from([m for s in specs for m in s["palette"]]), min_size=1, max_size=3)):
        props = {k: list(v if isinstance(v, list) else [v]) for k, v in m.items() if v is not None}
        if props and draw(st.booleans()):
            name = draw(st.sampled_from(sorted(props)))
            props = {name: props[name][:1]}
        key = [[n, v] for n, v in sorted(props.items())]
        if sorted((n, tuple(sorted(v))) for n, v in key) not in [sorted((n, tuple(sorted(v))) for n, v in k) for k in keys]:
            keys.append(key)
    parts = draw(weights(len(keys)))
    return {"kind": "static", "size": size, "strict": draw(st.booleans()), "keys": keys, "parts": parts}
