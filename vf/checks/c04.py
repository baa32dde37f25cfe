"""C04: mixture weights become exact row counts."""
from fractions import Fraction

from hypothesis import strategies as st

from vf.core import Sub, eq, fail, require, sut
from vf.gen import weights

from mixtera.core.query.mixture import (
    HierarchicalStaticMixture, InferringMixture, MixtureKey, MixtureNode, StaticMixture,
)
from mixtera.core.query.mixture.hierarchical_static_mixture import Component

RULE = ("chunk sizes 1..200000 and 1-8 (hierarchies up to depth 4) rational weights incl. zero and skewed ones, "
        "normalised with rounding noise; chunker indexes with arbitrary interval lengths; malformed weight sets; "
        "non-trivial = some ideal share is not a whole number (or the weights are malformed)")

sizes = st.one_of(st.integers(1, 30), st.integers(1, 200000), st.sampled_from([1, 2, 10, 100, 128, 1000, 1024, 65536]))


def _counts_ok(counts, size, what):
    for k, c in counts.items():
        require(isinstance(c, int) and not isinstance(c, bool), "%s: count of %s is %r (%s), not an int", what, k, c, type(c))
        require(c >= 0, "%s: negative count %s for %s", what, c, k)
    eq(sum(counts.values()), size, f"{what}: sum of the row counts")


def _check_shares(counts, keys, shares, what):
    eq(len(counts), len(keys), f"{what}: number of keys")
    nt = False
    for k, share in zip(keys, shares):
        got = [c for kk, c in counts.items() if hash(kk) == hash(k) and str(kk) == str(k)]
        eq(len(got), 1, f"{what}: entries for {k}")
        if share.denominator == 1:
            eq(got[0], int(share), f"{what}: count of {k} (whole share)")
        else:
            nt = True
            require(abs(got[0] - share) < 1 + Fraction(1, 10**6), "%s: count %s of %s is not within one of %s", what, got[0],
                    k, float(share))
    return nt


@st.composite
def static_case(draw):
    n = draw(st.integers(1, 8))
    parts = draw(weights(n))
    return {"size": draw(sizes), "parts": parts, "scale": draw(st.sampled_from([1.0, 1.0, 1.0004, 0.9996, 1 + 1e-9])),
            "strict": draw(st.booleans())}


def run_static(case):
    total = sum(case["parts"])
    size = case["size"]
    keys = [MixtureKey({"p": [f"v{i}"]}) for i in range(len(case["parts"]))]
    with sut("StaticMixture"):
        m = StaticMixture(size, {k: p / total * case["scale"] for k, p in zip(keys, case["parts"])}, strict=case["strict"])
        counts = m.mixture_in_rows()
    _counts_ok(counts, size, "static")
    nt = _check_shares(counts, keys, [Fraction(p * size, total) for p in case["parts"]], "static")
    eq(m.strict, case["strict"], "strict flag")
    eq(m.chunk_size, size, "chunk size")
    sm = m.stringified_mixture()
    eq(sm, {str(k): v for k, v in counts.items()}, "stringified mixture")
    return {"nt"} if nt else set()


@st.composite
def bad_case(draw):
    kind = draw(st.sampled_from(["sum", "negative"]))
    n = draw(st.integers(2, 5))
    parts = draw(weights(n, zeros=False))
    total = sum(parts)
    w = [p / total for p in parts]
    if kind == "sum":
        f = draw(st.sampled_from([0.0, 0.5, 0.99, 1.01, 2.0, 100.0, 0.997, 1.003]))
        w = [x * f for x in w]
    else:
        d = draw(st.sampled_from([1e-3, 0.1, 1.0, 5.0]))
        w[0], w[1] = -d, w[1] + w[0] + d
    return {"size": draw(sizes), "w": w, "kind": kind}


def run_bad(case):
    keys = [MixtureKey({"p": [f"v{i}"]}) for i in range(len(case["w"]))]
    try:
        m = StaticMixture(case["size"], dict(zip(keys, case["w"])))
    except (ValueError, AssertionError):
        return {"nt", case["kind"]}
    fail("weights %s accepted: %s", case["w"], m.mixture_in_rows())


@st.composite
def infer_case(draw):
    n = draw(st.integers(0, 7))
    index = []
    for _ in range(n):
        index.append([[draw(st.integers(1, 2)), draw(st.integers(1, 4)),
                       draw(st.lists(st.integers(1, draw(st.sampled_from([3, 50, 5000]))), min_size=1, max_size=4))]
                      for _ in range(draw(st.integers(1, 3)))])
    return {"size": draw(sizes), "index": index}


def run_infer(case):
    index, keys, lens = {}, [], []
    for i, entries in enumerate(case["index"]):
        key = MixtureKey({"p": [f"v{i}"], "q": ["x"]} if i % 2 else {"p": [f"v{i}"]})
        d = index[key] = {}
        for did, fid, ls in entries:
            pos = max((e for _, e in d.get(did, {}).get(fid, [])), default=0)
            for ln in ls:
                d.setdefault(did, {}).setdefault(fid, []).append((pos, pos + ln))
                pos += ln + 2
        keys.append(key)
        lens.append(sum(e - s for fs in d.values() for iv in fs.values() for s, e in iv))
    m = InferringMixture(case["size"])
    with sut("InferringMixture.process_index"):
        m.process_index(index)
        counts = m.mixture_in_rows()
    if not index:
        eq(counts, {}, "inferred mixture of an empty result")
        return set()
    _counts_ok(counts, case["size"], "inferred")
    total = sum(lens)
    nt = _check_shares(counts, keys, [Fraction(case["size"] * x, total) for x in lens], "inferred")
    return {"nt"} if nt else set()


@st.composite
def hier_node(draw, depth):
    n = draw(st.integers(1, 4))
    parts = draw(weights(n))
    comps = []
    for i in range(n):
        sub = draw(hier_node(depth + 1)) if depth < 4 and draw(st.integers(0, 2)) == 0 else None
        nv = draw(st.integers(1, 2))
        comps.append({"values": [f"v{i}_{j}" for j in range(nv)], "part": parts[i], "sub": sub})
    return {"prop": f"p{depth}", "comps": comps}


@st.composite
def hier_case(draw):
    return {"size": draw(sizes), "node": draw(hier_node(1)), "strict": draw(st.booleans())}


def _build(node):
    total = sum(c["part"] for c in node["comps"])
    return MixtureNode(node["prop"], [Component(list(c["values"]), c["part"] / total,
                                                _build(c["sub"]) if c["sub"] else None) for c in node["comps"]])


def _leaves(node, props, share):
    total = sum(c["part"] for c in node["comps"])
    for c in node["comps"]:
        p = dict(props)
        p[node["prop"]] = tuple(c["values"])
        s = share * Fraction(c["part"], total)
        if c["sub"]:
            yield from _leaves(c["sub"], p, s)
        else:
            yield p, s


def run_hier(case):
    size = case["size"]
    with sut("HierarchicalStaticMixture"):
        m = HierarchicalStaticMixture(size, _build(case["node"]), strict=case["strict"])
        counts = m.mixture_in_rows()
    _counts_ok(counts, size, "hierarchical")
    eq(m.strict, case["strict"], "strict flag")
    want = {tuple(sorted(p.items())): s * size for p, s in _leaves(case["node"], {}, Fraction(1))}
    got = {tuple(sorted((n, tuple(v)) for n, v in k.properties.items())): c for k, c in counts.items()}
    eq(sorted(got), sorted(want), "leaves of the hierarchy")
    nt = False
    for k, ideal in want.items():
        if ideal.denominator == 1:
            eq(got[k], int(ideal), f"hierarchical: count of {k} (whole share)")
        else:
            nt = True
            require(abs(got[k] - ideal) < 1 + Fraction(1, 10**6), "hierarchical: count %s of %s is not within one of %s", got[k], k,
                    float(ideal))
    labels = {"nt"} if nt else set()
    if any(c["sub"] for c in case["node"]["comps"]):
        labels.add("nested")
    return labels


SUBS = [
    Sub("static", static_case, run_static, quick=3000, thorough=200000, shards=4),
    Sub("malformed", bad_case, run_bad, quick=600, thorough=20000, shards=2),
    Sub("inferred", infer_case, run_infer, quick=2500, thorough=150000, shards=4),
    Sub("hierarchical", hier_case, run_hier, quick=2500, thorough=150000, shards=4),
]
