"""Strategies shared by the checks."""
from hypothesis import strategies as st

# Characters that matter to SQL, to file formats, to the key syntax and to encodings.
NASTY = ["'", '"', ";", ":", ",", "%", "_", "\\", "\n", "\t", "\u00e9", "\u4e2d", "\U0001f600", " ", "?", "$", "--", "NULL",
         "[", "]", "{", "\u2028", "\x85", "\u0000", "a", "b", "1"]
SPECIAL_TEXT = st.lists(st.sampled_from([c for c in NASTY if c != "\u0000"]), min_size=0, max_size=4).map("".join)

ANY_TEXT = st.text(st.characters(exclude_categories=("Cs",)), max_size=12)


@st.composite
def weights(draw, n, zeros=True):
    """n integer parts (at least one positive): weight i is parts[i]/sum(parts)."""
    kind = draw(st.sampled_from(["small", "equal", "skewed", "big", "percent"]))
    if kind == "equal":
        parts = [1] * n
    elif kind == "skewed":
        parts = [draw(st.sampled_from([1, 1, 2, 1000, 99999])) for _ in range(n)]
    elif kind == "big":
        parts = [draw(st.integers(1, 10**6)) for _ in range(n)]
    elif kind == "percent":
        cuts = sorted(draw(st.lists(st.integers(0, 100), min_size=n - 1, max_size=n - 1)))
        cuts = [0] + cuts + [100]
        parts = [b - a for a, b in zip(cuts, cuts[1:])]
    else:
        parts = [draw(st.integers(0 if zeros else 1, 6)) for _ in range(n)]
    if not zeros:
        parts = [max(p, 1) for p in parts]
    if sum(parts) == 0:
        parts[draw(st.integers(0, n - 1))] = 1
    return parts
