"""C25: mixture keys match and order consistently."""
import itertools

from hypothesis import strategies as st

from vf.core import Sub, eq, require, sut
from vf.gen import SPECIAL_TEXT

from mixtera.core.query.mixture import MixtureKey

RULE = ("3-6 mixture keys over a small pool of property names and values (strings incl. separators and Unicode, ints, "
        "floats; empty and repeated values included), each written down in 2 orders; non-trivial = some pair of keys "
        "shares a property name")

# Types are fixed per property name: a property has one type.
_names = ["sa", "sb", "s", "sa:", "nA", "n", "fx"]


def _values(name):
    if name.startswith("s"):
        return st.one_of(st.sampled_from(["a", "b", "ab", "1", "10", "9", "", "A"]), SPECIAL_TEXT)
    if name.startswith("n"):
        return st.integers(-3, 12)
    return st.sampled_from([0.5, 1.5, -2.0, 10.0, 9.0])


@st.composite
def _key(draw):
    names = draw(st.lists(st.sampled_from(_names), unique=True, min_size=0, max_size=4))
    return [[n, draw(st.lists(_values(n), min_size=0, max_size=3))] for n in names]


@st.composite
def _case(draw):
    keys = draw(st.lists(_key(), min_size=2, max_size=5))
    # Related keys: the same key with one property / value changed.
    for _ in range(draw(st.integers(0, 2))):
        base = [[n, list(v)] for n, v in draw(st.sampled_from(keys))]
        how = draw(st.sampled_from(["drop", "value", "add", "swap"]))
        if base and how == "drop":
            base.pop(draw(st.integers(0, len(base) - 1)))
        elif base and how == "value":
            i = draw(st.integers(0, len(base) - 1))
            base[i][1] = base[i][1] + [draw(_values(base[i][0]))]
        elif base and how == "swap" and base[0][1]:
            base[0][1][-1] = draw(_values(base[0][0]))
        else:
            free = [n for n in _names if n not in [b[0] for b in base]]
            n = draw(st.sampled_from(free)) if free else None
            if n:
                base.append([n, draw(st.lists(_values(n), max_size=2))])
        keys.append(base)
    out = []
    for k in keys:
        perm = draw(st.permutations(list(range(len(k)))))
        vperm = [draw(st.permutations(list(range(len(v))))) for _, v in k]
        out.append([k, [[k[i][0], [k[i][1][j] for j in vperm[i]]] for i in perm]])
    return {"keys": out, "order": draw(st.permutations(list(range(len(out)))))}


def mk(spec):
    return MixtureKey({n: list(v) for n, v in spec})


def content(spec):
    return tuple(sorted((n, tuple(sorted(map(str, v)))) for n, v in spec))


def matches(a, b):
    bd = {n: v for n, v in b}
    for n, v in a:
        if n not in bd:
            return False
        if not (set(v) & set(bd[n])) and (v or bd[n]):
            return False
    return True


def run(case):
    labels = set()
    pairs = case["keys"]
    keys = []
    for a, b in pairs:
        ka, kb = mk(a), mk(b)
        with sut("hash/str of a mixture key"):
            ha, hb = hash(ka), hash(kb)
            sa, sb = str(ka), str(kb)
        eq(ha == hb, True, f"hash of {a} and of {b} (same content in another order) equal")
        eq(sb, sa, f"string form of {b} versus {a}")
        eq(hash(ka), ha, "hash when asked again")
        eq(content([[n, v] for n, v in ka.properties.items()]), content(a), "properties after hashing")
        require(not (ka < kb) and not (kb < ka), "keys with equal content ordered: %s %s", a, b)
        eq(content([[n, v] for n, v in ka.properties.items()]), content(a), "properties after comparing")
        # a fresh key hashes to the same value
        eq(hash(mk(a)), ha, "hash of a fresh equal key")
        keys.append((a, ka))
        keys.append((b, kb))
        if a and a[-1][1]:
            # properties added later count like those given at construction
            inc = mk(a[:-1])
            hash(inc)
            inc.add_property(a[-1][0], list(a[-1][1]))
            eq(hash(inc), ha, f"hash after adding {a[-1]} to {a[:-1]}")
            eq(str(inc), sa, "string form after add_property")
    for (sa, ka), (sb, kb) in itertools.product(keys, keys):
        want = matches(sa, sb)
        with sut("comparing keys"):
            got = ka == kb
        eq(bool(got), want, f"match of {sa} against {sb}")
        eq(bool(ka != kb), not want, f"!= of {sa} against {sb}")
        if want:
            labels.add("match")
        if {n for n, _ in sa} & {n for n, _ in sb}:
            if content(sa) != content(sb):
                labels.add("nt")
            else:
                labels.add("same")
        if content(sa) != content(sb):
            lt, gt = ka < kb, kb < ka
            require(lt != gt, "not exactly one of a<b, b<a for a=%s b=%s: %s %s", sa, sb, lt, gt)
        else:
            require(not ka < kb, "equal content ordered: %s %s", sa, sb)
    firsts = keys[::2]
    for (sa, ka), (sb, kb), (sc, kc) in itertools.permutations(firsts, 3):
        if ka < kb and kb < kc:
            require(ka < kc, "order not transitive: %s %s %s", sa, sb, sc)
    # Sorting does not depend on the order the keys come in (up to equal content).
    one = [content_of(k) for k in sorted(k for _, k in firsts)]
    two = [content_of(k) for k in sorted(firsts[i][1] for i in case["order"])]
    eq(two, one, "sorted keys from another initial order")
    # Keys with equal content are one dictionary key.
    for (a, b), (_, ka) in zip(pairs, firsts):
        d = {ka: 1}
        if all(v for _, v in a) or True:
            require(mk(b) in d, "%s not found in a dictionary under %s", b, a)
    return labels


def content_of(k):
    return content([[n, v] for n, v in k.properties.items()])


SUBS = [Sub("keys", _case, run, quick=4000, thorough=150000, shards=8)]
