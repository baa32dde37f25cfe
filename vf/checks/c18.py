"""C18: metadata records follow the parser's declared schema."""
import copy

from hypothesis import strategies as st

from vf.core import Sub, eq, fail, require, sut
from vf.gen import SPECIAL_TEXT

from mixtera.core.datacollection.index.parser import MetadataParser, MetadataProperty
from mixtera.core.datacollection.index.parser.parser_collection import MetadataParserFactory

RULE = ("1-4 declared properties (string/enum x single/multiple x nullable) and 1-8 samples with missing, None, falsy, "
        "out-of-enumeration, list and extra values; built-in parsers on well-formed records and on records with one field "
        "missing or invalid; histories of parser factory operations; non-trivial = a record is stored and, over the case, "
        "something is omitted, multi-valued, falsy or rejected")

OPTIONS = ["a", "b", "", "C4", "x y"]
_scalar = st.one_of(st.sampled_from(["a", "b", "", "zz", "0", "None"]), SPECIAL_TEXT)


@st.composite
def schema_case(draw):
    props = []
    for i in range(draw(st.integers(1, 4))):
        dt = draw(st.sampled_from(["STRING", "ENUM"]))
        props.append({"name": f"p{i}", "dtype": dt, "multiple": draw(st.booleans()), "nullable": draw(st.booleans()),
                      "options": draw(st.lists(st.sampled_from(OPTIONS), min_size=1, unique=True)) if dt == "ENUM" else None})
    samples = []
    for _ in range(draw(st.integers(1, 8))):
        rec = {}
        for p in props:
            good = st.sampled_from(p["options"]) if p["options"] else _scalar
            how = draw(st.sampled_from(["good", "good", "good", "list", "list", "none", "missing", "bad", "empty"]))
            if how == "good":
                rec[p["name"]] = draw(good)
            elif how == "list":
                n = draw(st.integers(1, 3)) if p["multiple"] else draw(st.sampled_from([1, 2, 3]))
                if not p["multiple"] and draw(st.booleans()):
                    rec[p["name"]] = draw(good)
                else:
                    rec[p["name"]] = [draw(good) for _ in range(n)]
            elif how == "none":
                rec[p["name"]] = None
            elif how == "bad":
                bad = draw(st.sampled_from(["nope", "A", "a ", "ab", "None"]))
                rec[p["name"]] = draw(st.sampled_from([bad, [bad], [draw(good), bad]])) if p["multiple"] else bad
            elif how == "empty" and p["multiple"]:
                rec[p["name"]] = []
        if draw(st.integers(0, 5)) == 0:
            rec["undeclared"] = "x"
        samples.append(rec)
    return {"props": props, "samples": samples, "step": draw(st.integers(1, 3)), "start": draw(st.sampled_from([0, 5]))}


def expected(props, rec):
    """(record, None) or (None, reason); a value is (kind, v)."""
    out = {}
    for p in props:
        v = rec.get(p["name"])
        if v is None:
            if not p["nullable"]:
                return None
            continue
        if p["multiple"]:
            v = list(v) if isinstance(v, list) else [v]
            vals = v
        else:
            if isinstance(v, list):
                if len(v) > 1:
                    return None
                return "single-list"
            vals = [v]
        if p["options"] is not None and any(x not in p["options"] for x in vals):
            return None
        out[p["name"]] = v
    return out


def make_parser(props):
    class P(MetadataParser):
        @classmethod
        def get_properties(cls):
            return [MetadataProperty(name=p["name"], dtype=p["dtype"], multiple=p["multiple"], nullable=p["nullable"],
                                     enum_options=set(p["options"]) if p["options"] is not None else None) for p in props]

        def parse(self, line_number, payload, **kwargs):
            self.add_metadata(sample_id=line_number, **payload)

    return P


def run_schema(case):
    props = case["props"]
    with sut("creating a parser"):
        parser = make_parser(props)(3, 4)
    want = []
    labels = set()
    i = case["start"]
    for rec in case["samples"]:
        exp = expected(props, rec)
        n = len(parser.metadata)
        try:
            parser.parse(i, copy.deepcopy(rec))
            ok = True
        except Exception as e:  # noqa: BLE001
            ok = False
            require(exp is None or exp == "single-list", "sample %s (schema %s) rejected: %s: %s", rec, props, type(e).__name__, e)
            eq(len(parser.metadata), n, "records after a rejected sample")
            labels.add("rejected")
        if ok:
            eq(len(parser.metadata), n + 1, f"number of records after {rec}")
            if exp is None:
                fail("sample %s was stored as %s, but violates schema %s", rec, parser.metadata[-1], props)
            if exp == "single-list":
                for p in props:
                    require(p["multiple"] or not isinstance(parser.metadata[-1].get(p["name"]), list),
                            "list stored for single-valued %s", p)
                want.append(None)
            else:
                want.append((i, exp))
        i += case["step"]
    eq(len(parser.metadata), len(want), "number of records")
    for m, w in zip(parser.metadata, want):
        if w is None:
            continue
        sid, exp = w
        eq(m["sample_id"], sid, "sample number")
        for p in props:
            got = m.get(p["name"])
            v = exp.get(p["name"])
            require(type(got) is type(v) and got == v, "property %s of sample %s: stored %r, want %r", p, sid, got, v)
            if v is None:
                labels.add("omitted")
            elif v in ("", []):
                labels.add("falsy")
            elif isinstance(v, list):
                labels.add("list")
        require(set(m) <= {"sample_id", "dataset_id", "file_id"} | {p["name"] for p in props}, "undeclared fields: %s", m)
    if want and labels:
        labels.add("nt")
    return labels


PILE = ["Pile-CC", "PubMed Central", "Books3", "OpenWebText2", "ArXiv", "Github", "FreeLaw", "StackExchange",
        "USPTO Backgrounds", "PubMed Abstracts", "Gutenberg (PG-19)", "OpenSubtitles", "Wikipedia (en)", "DM Mathematics",
        "Ubuntu IRC", "BookCorpus2", "EuroParl", "HackerNews", "YoutubeSubtitles", "PhilPapers", "NIH ExPorter",
        "Enron Emails"]
SLIM = ["RedPajamaCommonCrawl", "RedPajamaC4", "RedPajamaWikipedia", "RedPajamaStackExchange", "RedPajamaGithub",
        "RedPajamaArXiv", "RedPajamaBook"]


@st.composite
def builtin_case(draw):
    kind = draw(st.sampled_from(["RED_PAJAMA", "SLIM_PAJAMA", "IMAGENET_WEB_DATASET", "FINEWEB", "MSCOCO", "PILE"]))
    recs = []
    for _ in range(draw(st.integers(1, 5))):
        rec = {"text": draw(SPECIAL_TEXT), "meta": {"url": "u", "timestamp": "t"}}
        ok = True
        want = {}
        broken = draw(st.integers(0, 3)) == 0
        if kind == "RED_PAJAMA":
            langs = draw(st.one_of(st.none(), st.lists(SPECIAL_TEXT, max_size=3)))
            date = draw(st.one_of(st.none(), st.sampled_from(["2023", "1999-01-01"]), SPECIAL_TEXT))
            if langs is not None:
                rec["meta"]["language"] = [{"name": x, "score": "0.9"} for x in langs]
                if langs:
                    want["language"] = langs
            if date is not None:
                rec["meta"]["publication_date"] = date
                if date:
                    want["publication_date"] = date
        elif kind in ("SLIM_PAJAMA", "PILE"):
            f = "redpajama_set_name" if kind == "SLIM_PAJAMA" else "pile_set_name"
            v = draw(st.sampled_from(SLIM if kind == "SLIM_PAJAMA" else PILE))
            how = draw(st.sampled_from(["missing", "none", "other", "case", "nometa"])) if broken else "good"
            ok = how == "good"
            if how == "nometa":
                del rec["meta"]
            elif how != "missing":
                rec["meta"][f] = {"none": None, "other": "Other", "case": v.lower() + "_", "good": v}[how]
            want[f] = v
        elif kind == "IMAGENET_WEB_DATASET":
            v = draw(st.integers(0, 1000))
            rec = {"__key__": "k", ".jpg": "bytes"}
            how = draw(st.sampled_from(["missing"])) if broken else "good"
            ok = how == "good"
            if ok:
                rec[".cls"] = v
            want["class_label"] = str(v)
        elif kind == "FINEWEB":
            rec = {"text": "t", "dump": draw(st.sampled_from(["CC-MAIN-2013", "x"])), "language": "en",
                   "language_score": 0.9}
            want = {"dump": rec["dump"], "language": "en"}
            how = draw(st.sampled_from(["nodump", "nolang", "lang", "nulldump"])) if broken else "good"
            ok = how == "good"
            if how == "nodump":
                del rec["dump"]
            elif how == "nolang":
                del rec["language"]
            elif how == "lang":
                rec["language"] = "de"
            elif how == "nulldump":
                rec["dump"] = None
        else:
            rec = {"__key__": "k", ".txt": "t"}
            want = {"parity": None}
        recs.append({"rec": rec, "ok": ok, "want": want})
    return {"kind": kind, "recs": recs, "start": draw(st.integers(0, 100))}


def run_builtin(case):
    labels = {case["kind"]}
    with sut("creating a built-in parser"):
        parser = MetadataParserFactory().create_metadata_parser(case["kind"], 1, 2)
    eq((parser.dataset_id, parser.file_id), (1, 2), "parser's dataset and file")
    names = [p.name for p in parser.get_properties()]
    i = case["start"]
    n = 0
    for r in case["recs"]:
        try:
            parser.parse(line_number=i, payload=copy.deepcopy(r["rec"]))
            ok = True
        except Exception as e:  # noqa: BLE001
            ok = False
            if r["ok"]:
                fail("%s rejected well-formed record %s: %s: %s", case["kind"], r["rec"], type(e).__name__, e)
        if ok and not r["ok"]:
            fail("%s stored %s for malformed record %s", case["kind"], parser.metadata[-1], r["rec"])
        n += ok
        eq(len(parser.metadata), n, f"records after {r['rec']}")
        if ok:
            m = parser.metadata[-1]
            want = dict(r["want"])
            if case["kind"] == "MSCOCO":
                want = {"parity": str(i % 3)}
            eq(m["sample_id"], i, "sample number")
            eq({k: v for k, v in m.items() if k not in ("sample_id", "file_id", "dataset_id") and v is not None}, want,
               f"fields extracted from {r['rec']}")
            require(set(want) <= set(names), "schema %s lacks %s", names, want)
        else:
            labels.add("rejected")
        i += 1
    if n:
        labels.add("nt")
    return labels


@st.composite
def factory_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        n = draw(st.sampled_from(["A", "B", "PILE"]))
        ops.append(draw(st.sampled_from([["add", n, draw(st.integers(0, 2)), draw(st.booleans())], ["remove", n], ["create", n]])))
    return {"ops": ops}


def run_factory(case):
    classes = [make_parser([{"name": f"q{i}", "dtype": "STRING", "multiple": False, "nullable": True, "options": None}])
               for i in range(3)]
    f = MetadataParserFactory()
    model = {"PILE": "builtin"}
    labels = set()
    for j, op in enumerate(case["ops"]):
        if op[0] == "add":
            free = op[1] not in model or op[3]
            with sut("add_parser"):
                got = f.add_parser(op[1], classes[op[2]], overwrite=op[3])
            eq(bool(got), free, f"add_parser {op} in {model}")
            if free:
                model[op[1]] = op[2]
            else:
                labels |= {"nt", "rejected"}
        elif op[0] == "remove":
            with sut("remove_parser"):
                f.remove_parser(op[1])
            model.pop(op[1], None)
        else:
            try:
                p = f.create_metadata_parser(op[1], j, j + 1)
            except Exception:  # noqa: BLE001
                require(op[1] not in model, "parser %s not found", op[1])
                labels.add("unknown")
                continue
            require(op[1] in model, "unknown parser %s created", op[1])
            eq((p.dataset_id, p.file_id), (j, j + 1), "ids of the created parser")
            names = [x.name for x in p.get_properties()]
            eq(names, ["pile_set_name"] if model[op[1]] == "builtin" else [f"q{model[op[1]]}"], "schema of the created parser")
            labels |= {"nt", "created"}
    return labels


SUBS = [
    Sub("schema", schema_case, run_schema, quick=3000, thorough=200000, shards=4),
    Sub("builtin", builtin_case, run_builtin, quick=2000, thorough=60000, shards=4),
    Sub("factory", factory_case, run_factory, quick=500, thorough=10000, shards=2),
]
