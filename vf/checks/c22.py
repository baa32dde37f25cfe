"""C22: ADO always produces a valid distribution by its update rule."""
import json
import math

import dill
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, eq, require, scratch, sut

from mixtera.core.algo.ado.ado import AdoDynamicMixing

RULE = ("(rule) 3-40 reports over 1-5 domains (reports covering fewer or new domains, domains without tokens) under generated variants and "
        "hyperparameters, with the costly fit replaced by generated scaling-law parameters, saved and restored at generated points, against "
        "an independent model of the update rule; (fit) the real fit on series drawn from known scaling laws; non-trivial = at least 3 "
        "mixtures returned")

VARIANTS = ["vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3"]


class StubFit(AdoDynamicMixing):
    """The fit itself (seconds per call) is replaced; everything around it is the real code."""

    plan = ()

    def fit_scaling_laws(self):
        self.fits = getattr(self, "fits", [])
        self.fits.append(self.total_steps)
        base = self.plan[(len(self.fits) - 1) % len(self.plan)]
        self.scaling_law_params = np.array([base[k % len(base)] for k in range(len(self.counts))], dtype=float)


class Model:
    def __init__(self, h, init, plan):
        self.h = h
        self.plan = plan
        self.mu = list(init)
        self.t = 0
        self.count = [0] * len(init)
        self.n_same = [0] * len(init)
        self.hk = None
        self.bar = None
        self.params = None
        self.fits = []
        self.last_h = 0
        self.last_mix = -1
        self.first_out = False
        self.cont_at = None

    def grow(self, n):
        for attr in ("mu", "hk", "bar", "count", "n_same"):
            v = getattr(self, attr)
            if v is not None:
                v.extend([0] * (n - len(v)))
        if self.params is not None:
            self.params += [[-1.0, -1.0, -1.0]] * (n - len(self.params))

    def report(self, counts, mix_id):
        h = self.h
        new_client = mix_id > self.last_mix
        self.last_mix = max(self.last_mix, mix_id)
        n = max(len(counts), len(self.mu))
        self.grow(n)
        counts = list(counts) + [0] * (n - len(counts))
        for k in range(n):
            self.count[k] += counts[k]
        for k in range(n):
            if self.count[k] > 0:
                self.n_same[k] += sum(counts)
        self.t += 1
        if self.t < h["start_step"]:
            return None
        if self.hk is None:
            self.hk = list(self.mu)
        fitted = (self.t - h["start_step"]) % h["interval"] == 0
        if fitted:
            self.fits.append(self.t)
            base = self.plan[(len(self.fits) - 1) % len(self.plan)]
            self.params = [list(base[k % len(base)]) for k in range(n)]
        if h["variant"] == "adjusted_v3" and self.first_out:
            if new_client:
                self.cont_at = self.t + 15
            if not (self.cont_at == self.t or fitted):
                return None
        # preference: mu * h^s * decrease of the loss per further token
        ns = self.n_same if h["same_step"] else self.count
        norm = h["normalizer"] if h["normalizer"] and h["normalizer"] > 1 else 1
        rho = []
        for k in range(n):
            lb, _, a = self.params[k]
            x = ns[k] / norm
            gain = (a * math.exp(lb) * x ** (-a)) / x if x > 0 else 0.0
            rho.append(max(self.mu[k] * self.hk[k] ** h["s"] * gain, 0.0))
        tot = sum(rho)
        rho = [r / tot for r in rho] if tot > 0 else [m / n for m in self.mu]
        if self.bar is None:
            self.bar = list(self.mu)
        pi = [h["gamma2"] * r + (1 - h["gamma2"]) * b for r, b in zip(rho, self.bar)]
        tot = sum(pi)
        pi = [p / tot for p in pi]
        pi = [max(p, h["delta"]) if c > 0 else p for p, c in zip(pi, self.count)]
        tot = sum(pi)
        pi = [p / tot for p in pi]
        g = h["gamma1"]
        update = h["variant"] in ("vanilla", "adjusted_v3") or new_client
        if update:
            if h["variant"] == "adjusted_v2":
                el = self.t - self.last_h
                if el > 1:
                    g = 1 - (1 - g) ** el
            self.hk = [g * p + (1 - g) * x for p, x in zip(pi, self.hk)]
            self.last_h = self.t
        w = 1 / (self.t + 1)
        self.bar = [w * r + (1 - w) * b for r, b in zip(rho, self.bar)]
        tot = sum(self.bar)
        self.bar = [b / tot for b in self.bar]
        self.first_out = True
        return pi


@st.composite
def rule_case(draw):
    k = draw(st.integers(1, 4))
    raw = [draw(st.integers(0, 9)) for _ in range(k)]
    if not sum(raw):
        raw[0] = 1
    ignore = draw(st.integers(0, 3))
    hyper = {"variant": draw(st.sampled_from(VARIANTS)), "gamma1": draw(st.sampled_from([0.1, 0.5, 0.9, 1.0])),
             "gamma2": draw(st.sampled_from([0.1, 0.5, 0.95])), "s": draw(st.sampled_from([0.5, 1.0, 0.25])),
             "delta": draw(st.sampled_from([0.0, 0.01, 0.1, 0.3])), "interval": draw(st.integers(1, 9)),
             "ignore": ignore, "start_step": ignore + draw(st.integers(1, 6)), "same_step": draw(st.booleans()),
             "normalizer": draw(st.sampled_from([None, None, 1, 7, 1024]))}
    law = st.tuples(st.floats(-2, 6), st.floats(-2, 2), st.one_of(st.floats(0.01, 0.8), st.floats(0.1, 0.6)))
    law = st.one_of(law, law, law, law, st.just((-1.0, -1.0, -1.0)))
    plan = [[list(draw(law)) for _ in range(5)] for _ in range(draw(st.integers(1, 3)))]
    steps = []
    mid = 0
    for i in range(draw(st.integers(3, 40))):
        n = draw(st.sampled_from([k, k, k, k, max(k - 1, 1), k + 1, 5]))
        cs = [draw(st.sampled_from([0, 0, 1, 5, 100, 1000, 4096])) for _ in range(n)]
        if i == 0 and not sum(cs):
            cs[0] = 10
        mid += draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
        steps.append({"counts": cs, "loss": draw(st.floats(0.6, 9)), "mid": max(mid - draw(st.sampled_from([0, 0, 0, 1, 3])), 0),
                      "save": draw(st.integers(0, 8)) == 3})
    return {"init": raw, "hyper": hyper, "plan": plan, "steps": steps, "log": draw(st.booleans())}


def run_rule(c):
    with scratch() as d:
        return _run_rule(c, d)


def _run_rule(c, d):
    h = c["hyper"]
    init = [x / sum(c["init"]) for x in c["init"]]
    log = str(d / "ado.json") if c["log"] else None
    with sut("construction"):
        alg = StubFit(variant=h["variant"], gamma1=h["gamma1"], gamma2=h["gamma2"], s=h["s"], delta_min=h["delta"],
                      scaling_law_update_interval=h["interval"], subsampling_interval=1, ignore_initial_steps=h["ignore"],
                      start_step=h["start_step"], use_same_step_size=h["same_step"], count_normalizer=h["normalizer"], logging_path=log)
    alg.plan = c["plan"]
    alg.initial_mixture = np.array(init, dtype=alg.initial_mixture.dtype)
    model = Model(h, init, c["plan"])
    out = 0
    for i, s in enumerate(c["steps"]):
        counts = np.array(s["counts"], dtype=np.int64)
        losses = counts * np.float32(s["loss"])
        losses = losses.astype(np.float32)
        with sut(f"report {i + 1}"):
            got = alg.process_losses(losses, counts, s["mid"])
        want = model.report(s["counts"], s["mid"])
        if want is None:
            require(got is None, "report %s: a mixture is returned where none is due: %s", i + 1, got)
        else:
            require(got is not None, "report %s: no mixture is returned, expected %s", i + 1, want)
            vals = [float(x) for x in got]
            require(len(vals) == len(want), "report %s: %s entries for %s domains", i + 1, len(vals), len(want))
            require(all(math.isfinite(x) and x >= 0 for x in vals) and abs(sum(vals) - 1) < 1e-5, "report %s: no distribution: %s", i + 1,
                    vals)
            require(all(abs(a - b) < 2e-4 for a, b in zip(vals, want)), "report %s: mixture %s, the update rule gives %s", i + 1, vals,
                    want)
            out += 1
        eq(getattr(alg, "fits", []), model.fits, f"steps at which scaling laws were fitted, after report {i + 1}")
        eq([int(x) for x in alg.counts], model.count, "accumulated counts")
        if s["save"]:
            with sut("saving and restoring"):
                alg = dill.loads(dill.dumps(alg))
    if log:
        with sut("writing the log"):
            alg.write_logs()
        with open(log, encoding="utf-8") as fp:
            json.load(fp)
    labels = {h["variant"]}
    if out >= 3:
        labels.add("nt")
    if any(len(s["counts"]) > len(init) for s in c["steps"]):
        labels.add("growing")
    return labels


@st.composite
def fit_case(draw):
    k = draw(st.integers(1, 3))
    ignore = draw(st.integers(0, 6))
    n = draw(st.integers(ignore + 12, ignore + 24))
    laws = [[round(draw(st.floats(0.0, 4.0)), 2), round(draw(st.floats(0.6, 1.5)), 2), round(draw(st.floats(0.1, 0.7)), 2)]
            for _ in range(k)]
    return {"laws": laws, "n": n, "ignore": ignore, "same": draw(st.booleans()), "normalizer": draw(st.sampled_from([None, 16])),
            "tokens": draw(st.integers(20, 400)), "every": [draw(st.integers(1, 3)) for _ in range(k)], "sub": draw(st.integers(1, 3))}


def run_fit(c):
    k, n = len(c["laws"]), c["n"]
    alg = AdoDynamicMixing(ignore_initial_steps=c["ignore"], start_step=n, scaling_law_update_interval=1000,
                           subsampling_interval=c["sub"], savgol=False, use_same_step_size=c["same"], count_normalizer=c["normalizer"])
    alg.initial_mixture = np.array([1 / k] * k, dtype=np.float32)
    norm = c["normalizer"] or 1
    cum = [0] * k
    xs, ys = [[] for _ in range(k)], [[] for _ in range(k)]
    got = None
    for t in range(n):
        # every domain takes part in the first step, later on only every so often
        counts = [c["tokens"] if t % c["every"][j] == 0 else 0 for j in range(k)]
        losses = [0.0] * k
        for j in range(k):
            cum[j] += sum(counts) if c["same"] else counts[j]
            if counts[j]:
                b, e, a = c["laws"][j]
                y = math.exp(e) + math.exp(b) * (cum[j] / norm) ** (-a)
                losses[j] = y * counts[j]
                last = y
                ys[j].append((t, cum[j] / norm, last))
            elif c["same"]:
                ys[j].append((t, cum[j] / norm, ys[j][-1][2]))
        with sut(f"report {t + 1}"):
            got = alg.process_losses(np.array(losses), np.array(counts, dtype=np.int64), 0)
        require((got is not None) == (t + 1 == n), "a mixture is due at step %s only, got %s at %s", n, got, t + 1)
    require(len(got) == k and all(math.isfinite(x) and x >= 0 for x in got) and abs(float(sum(got)) - 1) < 1e-5, "no distribution: %s", got)
    params = alg.scaling_law_params
    for j in range(k):
        pts = [p for p in ys[j] if p[0] > c["ignore"]][::c["sub"]]
        if not pts:
            continue
        x = np.array([p[1] for p in pts], dtype=float)
        y = np.array([p[2] for p in pts], dtype=float)
        b, e, a = (float(v) for v in params[j])
        require(all(map(math.isfinite, (b, e, a))), "parameters of domain %s: %s", j, params[j])

        def loss(q):
            pred = np.log(np.exp(q[1]) + np.exp(q[0]) * x ** (-q[2]))
            diff = np.abs(pred - np.log(y))
            return float(np.mean(np.where(diff <= 1e-3, 0.5 * diff**2, 1e-3 * (diff - 5e-4))))

        mine, true = loss((b, e, a)), loss(c["laws"][j])
        require(mine <= true + 2e-5, "domain %s: the fitted law %s describes its series worse (%.3g) than the law %s that generated it "
                "(%.3g)", j, (b, e, a), mine, c["laws"][j], true)
    return {"nt", "same-step" if c["same"] else "own-counts"}


SUBS = [
    Sub("rule", rule_case, run_rule, quick=2000, thorough=80000, shards=8, cpu=30),
    Sub("fit", fit_case, run_fit, quick=8, thorough=300, shards=2, cpu=200, wall=300),
]
