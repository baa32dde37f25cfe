"""C21: loss feedback is accumulated and averaged exactly."""
import math

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, eq, require, sut

from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm

RULE = ("1-25 reports over 1-6 domains (sizes growing, shrinking and shorter than the known domains; losses 0 to 1e5, counts 0 to 1e6; "
        "float32/float64), with explicit resets in between, against float64 accumulators; non-trivial = at least 3 reports of different "
        "sizes or with a domain without tokens")


@st.composite
def case(draw):
    steps = []
    for _ in range(draw(st.integers(1, 25))):
        if draw(st.integers(0, 12)) == 7:
            steps.append("reset")
            continue
        n = draw(st.integers(1, 6))
        steps.append({
            "losses": draw(st.lists(st.one_of(st.just(0.0), st.floats(0.001, 20), st.floats(0.001, 1e5)), min_size=n, max_size=n)),
            "counts": draw(st.lists(st.one_of(st.just(0), st.integers(1, 50), st.integers(0, 10**6)), min_size=n, max_size=n)),
            "id": draw(st.integers(0, 5))})
    return {"steps": steps, "dtype": draw(st.sampled_from(["float32", "float64"]))}


def run(c):
    alg = SimpleAveragingAlgorithm()
    loss, count = [], []
    sizes = set()
    labels = set()
    for i, s in enumerate(c["steps"]):
        if s == "reset":
            with sut("reset"):
                alg.reset_state()
            loss, count = [], []
            labels.add("reset")
            continue
        ls = np.array([x if k else 0.0 for x, k in zip(s["losses"], s["counts"])] if i % 2 else s["losses"], dtype=c["dtype"])
        cs = np.array(s["counts"], dtype=np.int64)
        kept = ls.copy(), cs.copy()
        with sut(f"report {i}"):
            got = alg.process_losses(ls, cs, s["id"])
        require(np.array_equal(kept[0], ls) and np.array_equal(kept[1], cs), "the reported arrays were changed")
        n = max(len(loss), len(ls))
        loss += [0.0] * (n - len(loss))
        count += [0] * (n - len(count))
        for k in range(len(ls)):
            loss[k] += float(ls[k])
            count[k] += int(cs[k])
        sizes.add(len(ls))
        eq([int(x) for x in alg.counts], count, "accumulated counts")
        require(all(math.isclose(a, b, rel_tol=1e-4, abs_tol=1e-6) for a, b in zip(alg.losses, loss)) and len(alg.losses) == n,
                "accumulated losses %s, expected %s", list(alg.losses), loss)
        if not any(count):
            require(got is None, "a mixture is returned without any token: %s", got)
            continue
        avg = [x / k if k else 0.0 for x, k in zip(loss, count)]
        total = sum(avg)
        want = [a / total for a in avg] if total > 0 else [1 / sum(1 for k in count if k) if k else 0.0 for k in count]
        require(got is not None, "no mixture is returned although there is information")
        require(len(got) == n and all(math.isfinite(x) and x >= 0 for x in got), "not a distribution over %s domains: %s", n, got)
        require(abs(float(np.sum(got)) - 1) < 1e-5, "sums to %s", np.sum(got))
        require(all(math.isclose(float(a), b, rel_tol=1e-3, abs_tol=1e-5) for a, b in zip(got, want)), "mixture %s, expected %s (losses %s, "
                "counts %s)", list(got), want, loss, count)
        if 0 in count:
            labels.add("nt")
    if len(sizes) > 1 and len(c["steps"]) >= 3:
        labels.add("nt")
    return labels


SUBS = [Sub("averaging", case, run, quick=6000, thorough=300000, shards=8, cpu=20)]
