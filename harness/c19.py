"""C19: resonances with user-defined line shapes."""

import math

import numpy as np
from scipy import stats

from harness.c05 import observe
from harness.core import Event, flat, groups_of, guard, parse_tla
from harness.lib import *
from harness.resonances import Caught


class Cells:
    """Density that is constant in cells; only the three documented functions.

    The edges and the cumulative weights of the cells are attributes or, if they are not given, the parameters."""

    def __init__(self, edges=None, weights=None):
        self.given = None if edges is None else (edges, weights)

    def knots(self, args):
        if self.given is None:
            n = len(args) // 2
            edges, weights = args[: n + 1], args[n + 1 :]
        else:
            edges, weights = self.given
        F = np.concatenate([[0.0], np.cumsum(np.asarray(weights, dtype=float))])
        return np.asarray(edges, dtype=float), F / F[-1], np.asarray(weights, dtype=float) / F[-1]

    def pdf(self, E, *args):
        x, F, w = self.knots(args)
        E = np.asarray(E, dtype=float)
        k = np.clip(np.searchsorted(x, E, side="right") - 1, 0, len(w) - 1)
        return np.where((E < x[0]) | (E > x[-1]), 0.0, (w / np.diff(x))[k])

    def cdf(self, E, *args):
        x, F, w = self.knots(args)
        return np.interp(np.asarray(E, dtype=float), x, F)

    def ppf(self, p, *args):
        x, F, w = self.knots(args)
        p = np.asarray(p, dtype=float)
        k = np.clip(np.searchsorted(F, p, side="left") - 1, 0, len(w) - 1)
        return np.where(p <= 0, x[0], np.minimum(x[k + 1], x[k] + (p - F[k]) / np.where(w[k] > 0, w[k], 1.0) * np.diff(x)[k]))


class SplitExponential:
    """Exponential tails with different lengths on both sides, parameters are attributes."""

    def __init__(self, centre, left, right):
        self.centre, self.left, self.right = centre, left, right
        self.share = left / (left + right)

    def pdf(self, E):
        t = np.asarray(E) - self.centre
        return np.exp(np.where(t < 0, t / self.left, -t / self.right)) / (self.left + self.right)

    def cdf(self, E):
        t = np.asarray(E) - self.centre
        return np.where(
            t < 0, self.share * np.exp(np.minimum(t, 0) / self.left), 1 - (1 - self.share) * np.exp(-np.maximum(t, 0) / self.right)
        )

    def ppf(self, p):
        p = np.asarray(p, dtype=float)
        with np.errstate(divide="ignore"):
            return self.centre + np.where(
                p < self.share,
                self.left * np.log(np.minimum(p / self.share, 1)),
                -self.right * np.log(np.minimum((1 - p) / (1 - self.share), 1)),
            )


class Shaped(Resonance):
    """Resonance of a user, written like the ones of the library."""

    def __init__(self, initial_state, intermediate_state, distribution, parameters, final_state=None):
        Resonance.__init__(self, initial_state, intermediate_state, final_state)
        self.probability_distribution = distribution
        self.probability_distribution_parameters = parameters


def resonance(k, E, two_J0, two_J2, width, distribution, parameters):
    g = GroundState("g", two_J0, 1)
    e = State("e", two_J2, 1, E, {"g": width})
    if k % 3 == 0:
        r = Resonance(g, e)
        r.probability_distribution = distribution
        r.probability_distribution_parameters = parameters
        return r
    return Shaped(g, e, distribution, parameters)


def model_replay(ctx):
    for k, s in enumerate(ctx.tlc(ctx.pick("custom_mcq", "custom_mct"))):
        st = parse_tla(s)
        q, w, lo = st["q"], st["w"], st["lo"]
        if q["kind"] == -1 or not ctx.quick and k % 5:
            continue
        edges = [float(lo + i) for i in range(len(w) + 1)]
        form = k % 4
        if form == 3 and 0 in w:
            form = 0
        if form == 0:
            d, par = Cells(edges, w), ()
        elif form == 1:
            d, par = Cells(), tuple(edges) + tuple(w)
        elif form == 2:
            d, par = Cells(), edges + list(w)
        else:
            d, par = stats.rv_histogram((np.array(w), np.array(edges)), density=False), ()
        info = dict(start=lo, weights=w, query=q, form=form)
        with guard(ctx, info):
            r = resonance(k, 2.0, 0, 2, 1.0, d, par)
            ctx.traces += 1
            want = [v["num"] / v["den"] for v in st["result"]]
            warned = 0
            if q["kind"] == 0:
                limits = [tuple, list, np.array][k % 3]([[float, int][k % 2](v) for v in (q["a"], q["b"])])
                got = flat(r.equidistant_probability_grid(limits, q["n"]))
                # without probability inside the limits, every order is as good as the one of the model
                if min(q["b"], edges[-1]) <= max(q["a"], edges[0]) or sum(w[max(0, q["a"] - lo) : max(0, q["b"] - lo)]) == 0:
                    want = sorted(got) if len(got) == q["n"] and got[0] == want[0] and got[-1] == want[-1] else want
            elif q["kind"] == 1:
                got = flat(Caught(lambda: r.equidistant_probability_grid(q["a"] / 8, q["n"])).result)
            elif q["kind"] == 2:
                got, warned, infinite, percent = observe(r, q["a"] / 8)
                if infinite:
                    ctx.violation("warning about an infinite limit of a bounded line shape", info)
                if warned:
                    below = sum(v * min(1, max(0, 0 - lo - i)) for i, v in enumerate(w)) / sum(w)
                    if percent is None or abs(percent - 100 * (1 - below)) > 1e-5:
                        ctx.violation("stated maximum coverage differs from the model", dict(info, library=percent))
            else:
                e = q["a"] + 0.5
                got = [v / r.energy_integrated_cross_section for v in flat(r(e)) + flat(r(np.array([e]))) + flat(r(e - 2.0, False))]
                want = 3 * want
            # where the distribution is flat, rounding decides on which side the points of a grid are
            same = len(got) == len(want) and all(
                abs(a - b) < 1e-9 or q["kind"] < 2 and abs(float(d.cdf(a, *par)) - float(d.cdf(b, *par))) < 1e-12 for a, b in zip(got, want)
            )
            if not same or warned != int(st["warned"]):
                ctx.violation("user-defined line shape differs from the model state", dict(info, model=want, warned=st["warned"], library=got, warnings=warned))
            if k % 3000 == 7:
                ctx.samples.append(dict(info, model=want, library=got))


def shape(rng, k, E):
    """(name, distribution, parameters), mostly not symmetric."""
    s = float(E * 10 ** rng.uniform(-6, -0.3))
    name = ["cells", "split", "expon", "gamma", "triang", "logistic", "lognorm", "gumbel_r", "gumbel_l", "weibull_min", "beta", "histogram", "laplace", "powerlaw"][k % 14]
    if name in ("cells", "histogram"):
        n = int(rng.integers(1, 7))
        edges = E + s * np.concatenate([[0.0], np.cumsum(10 ** rng.uniform(-1, 1, n))]) - s * float(rng.uniform(0, 2 * n))
        weights = rng.choice([0.5, 1.0, 3.0], n) * rng.uniform(0.5, 1, n)
        if name == "histogram":
            return name, stats.rv_histogram((weights / np.diff(edges), edges), density=True), ()
        if k % 28 < 14:
            return name, Cells(edges.tolist(), weights.tolist()), ()
        return name, Cells(), tuple(edges.tolist()) + tuple(weights.tolist())
    if name == "split":
        return name, SplitExponential(E, s, s * float(10 ** rng.uniform(-1, 1))), ()
    front = {"gamma": 1, "triang": 1, "lognorm": 1, "weibull_min": 1, "beta": 2, "powerlaw": 1}.get(name, 0)
    if name == "triang":
        a = [float(rng.uniform(0.05, 0.95))]
    else:
        a = [float(rng.uniform(0.8, 4)) for _ in range(front)]
    if name == "lognorm":
        a = [float(rng.uniform(0.2, 1))]
    return name, getattr(stats, name), tuple(a) + (E, s)


def check(ctx):
    rng = ctx.rng(19)
    model_replay(ctx)
    events = []
    for k in range(ctx.pick(700, 7000)):
        E = dyadic(float(10 ** rng.uniform(-1, 1.3)))
        name, d, par = shape(rng, k, E)
        if rng.random() < 0.25 and name not in ("cells", "histogram", "split"):
            # reaches below zero energy
            par = par[:-2] + (E - float(rng.uniform(0, 2)) * E, E)
        J0, J2 = (int(v) for v in rng.integers(0, 8, 2))
        width = float(10 ** rng.uniform(-9, -3))
        info = dict(shape=name, parameters=list(par), E=E, two_J=[J0, J2], width=width)

        def F(x):
            return float(d.cdf(x, *par))

        def f(x):
            return float(d.pdf(x, *par))

        def points(grid):
            return [v for x in grid for v in ((x, F(x), f(x)) if x is not None else (None, None, None))]

        with guard(ctx, info):
            r = resonance(k, E, J0, J2, width, d, par)
            lo, mid, hi = (float(v) for v in d.ppf(np.array([0.001, 0.5, 0.999]), *par))
            # values
            for j in range(4):
                x = float(d.ppf(float(rng.uniform(0.01, 0.99)), *par)) if j else mid
                arg = [x, np.array([x]), np.array([[x]])][j % 3]
                v = flat(r(arg))
                events.append(Event([1, E, J0, J2, width, f(x), v[0] if len(v) == 1 else None], dict(info, energy=x, value=v)))
            if name not in ("cells", "histogram"):
                x = mid - E
                events.append(Event([1, E, J0, J2, width, f(x + E), flat(r(x, False))[0]], dict(info, relative_energy=x)))
            # grids
            n = int(rng.integers(2, 12)) if k % 9 else int(rng.integers(12, 200))
            a, b = sorted(float(v) for v in d.ppf(np.array([rng.uniform(0.001, 0.5), rng.uniform(0.5, 0.999)]), *par))
            a, b = [(a, b), (lo - 3 * (hi - lo), hi + 3 * (hi - lo)), (mid, hi), (lo, mid), (a, hi + (hi - lo))][int(rng.integers(5))]
            if a < b:
                grid = flat(r.equidistant_probability_grid([tuple, list, np.array][k % 3]([a, b]), n))
                events.append(Event([2, n, a, b, F(a), F(b), len(grid)] + points(grid), dict(info, limits=[a, b], n=n, grid=grid[:10])))
            c = float(rng.choice([rng.random(), 0.0, 0.5, 0.9, 1 - 10 ** rng.uniform(-5, -1)]))
            grid = flat(r.equidistant_probability_grid(c, n))
            events.append(Event([3, n, c, len(grid)] + points(grid), dict(info, coverage=c, n=n, grid=grid[:10])))
            # coverage
            c = float(rng.choice([c, rng.random(), 1.0]))
            if 1 - c < 1e-9 and name in ("cells", "histogram"):
                c = 0.75
            limits, negative, infinite, percent = observe(r, c)
            q = [float(d.ppf(0.5 * (1 - c), *par)), float(d.ppf(0.5 * (1 + c), *par))]
            info = dict(info, coverage=c, quantiles=q, limits=limits)
            events.append(Event([4, c] + q + [F(0.0)] + limits + [negative, infinite, percent], info))
            if None not in limits and math.isfinite(limits[1]):
                m = int(rng.integers(1, 30))
                grid = flat(Caught(lambda: r.equidistant_energy_grid(c, m)).result)
                events.append(Event([5] + limits + [m, len(grid)] + grid, dict(info, n=m, grid=grid[:10])))
    canaries = []
    for e in events[:: max(1, len(events) // 200)]:
        v, kind = e.fields, e.fields[0]
        if kind == 1 and v[6]:
            canaries.append([e.corrupted(6, v[6] * 1.00001)])
        elif kind == 2 and v[1] > 2 and v[5] - v[4] > 0.1:
            canaries.append([e.corrupted(7, v[7] - 1e-6)])
            canaries.append([e.corrupted(11, v[11] + 1e-3)])
        elif kind == 3 and v[1] > 2 and v[2] > 0.1:
            canaries.append([e.corrupted(5, v[5] + 1e-3)])
        elif kind == 4:
            canaries.append([e.corrupted(7, 1 - v[7])])
            canaries.append([e.corrupted(8, 1 - v[8])])
            canaries.append([e.corrupted(5, -1e-3)])
        elif kind == 5 and v[3] > 2 and v[2] - v[1] > 1e-3:
            canaries.append([e.corrupted(6, v[6] + 1e-6)])
    ctx.judge("custom_trace", groups_of(events, 30), canaries=canaries)
    ctx.note("clamped_intervals", sum(1 for e in events if e.fields[0] == 4 and e.fields[7]))
    ctx.note("infinite_intervals", sum(1 for e in events if e.fields[0] == 4 and e.fields[8]))
