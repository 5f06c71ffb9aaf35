"""C16: integrals on equal-probability grids recover the energy-integrated cross sections."""

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla, plain
from harness.c13 import sums
from harness.resonances import *
from ries.integration.darboux import darboux
from ries.integration.quad_partition import quad_partition

SHAPES = {
    "rates_mcq": [[0, 1, 3, 1, 0], [3, 1, 1, 0, 0], [0, 0, 1, 2, 2], [1, 1, 1, 1, 1], [0, 4, 1, 0, 0]],
    "rates_mct": [[0, 1, 3, 1, 0], [3, 1, 1, 0, 0], [0, 0, 1, 2, 2], [0, 4, 1, 0, 0]],
}


class Table(CrossSection):
    """Piecewise linear reaction of the model with its own grid."""

    def __init__(self, values, grid):
        self.values, self.grid = values, grid

    def __call__(self, E):
        return np.interp(E, np.arange(len(self.values)), self.values)

    def equidistant_probability_grid(self, limits, n_points):
        return np.array(sorted(x for x in self.grid if limits[0] <= x <= limits[1]), dtype=float)


def model_replay(ctx):
    module = ctx.pick("rates_mcq", "rates_mct")
    shapes = SHAPES[module]
    seen = set()
    n = 0
    for s in ctx.tlc(module):
        parts = parse_tla(s)["parts"]
        key = repr([(p["shape"], p["c"], sorted(p["g"])) for p in parts])
        if not parts or key in seen:
            continue
        seen.add(key)
        n += 1
        if not ctx.quick and n % 3:
            continue
        grid = sorted(set().union(*[p["g"] for p in parts]))
        value = [sum(p["c"] * shapes[p["shape"]][x] for p in parts) for x in range(5)]
        pairs = list(zip(grid, grid[1:]))
        low = sum(min(value[a], value[b]) * (b - a) for a, b in pairs)
        high = sum(max(value[a], value[b]) * (b - a) for a, b in pairs)
        info = {"parts": key}
        with guard(ctx, info):
            total = None
            for p in parts:
                term = p["c"] * Table(shapes[p["shape"]], p["g"])
                total = term if total is None else total + term
            got_grid = total.equidistant_probability_grid((0, 4), 3)
            got = sums(darboux(total, got_grid))
            ctx.traces += 1
            info.update(grid=flat(got_grid), sums=got)
            if flat(got_grid) != grid:
                ctx.violation("grid of the combination differs from the model", info)
            elif got != [low, high - low]:
                ctx.violation("Darboux sums of the combination differ from the model", dict(info, model=[low, high - low]))
            if n % 10 == 0:
                # on the lattice, every interval is linear
                full = [float(x) for x in range(5)]
                i, _ = quad_partition(total, full)
                want = sum(value[x] + value[x + 1] for x in range(4)) / 2
                ctx.note("model_integrals", 1)
                if not abs(i - want) <= 1e-9 * (1 + abs(want)):
                    ctx.violation("integral of the combination differs from the model", dict(info, model=want, integral=plain(i)))
        if n % 1500 == 1:
            ctx.samples.append(info)


def spread_of(kind, E, width, amu, T):
    return core_width(kind, E, width, amu, T)


def one_reaction(ctx, rng, k):
    """Grid of one resonance with the resonance energy on it, Darboux sums and integral."""
    kind = KINDS[k % 5]
    E, width, amu, T = regime_params(rng, int(rng.integers(6)))
    J0, J2 = int(rng.integers(0, 9)), int(rng.integers(0, 9))
    r = simple_resonance(kind, E, width, amu, T, J0, J2)
    half = int(rng.integers(1, 16 if rng.random() < 0.3 else 6))
    n = 2 * half + 1
    w = spread_of(kind, E, width, amu, T)
    if kind == "voigt":
        x = min(sigma_of(E, amu, T) * float(rng.uniform(13, 25)) + width * float(rng.uniform(1, 20)), 0.5 * E)
        how = (E - x, E + x)
    elif k % 10 in (1, 3):
        # few intervals for a wide range
        how = float(rng.choice([0.998, 0.999, 0.9995]))
        n = int(rng.choice([3, 3, 5, 7]))
    elif rng.random() < 0.5:
        how = float(rng.choice([0.1, 0.5, 0.9, 0.99, 0.999, float(rng.uniform(0.05, 0.99))]))
    elif rng.random() < 0.5 or kind == "box":
        x = w * float(rng.uniform(0.2, 1.9 if kind == "box" else 12))
        how = (E - x, E + x)
    else:
        # on one side of the resonance energy, any number of points will do
        x = w * float(rng.uniform(0.5, 8))
        how = (E, E + x) if rng.random() < 0.5 else (E - x, E)
        n = int(rng.integers(2, 30))
    info = dict(kind=kind, E=E, width=width, amu=amu, T=T, two_J=[J0, J2], coverage_or_limits=how, points=n)
    code = [KINDS.index(kind), J0, J2, E, width, amu, T]
    out = []
    with guard(ctx, info):
        grid = r.equidistant_probability_grid(how, n)
        values = flat(grid)
        if not all(np.isfinite(v) for v in values if v is not None) or None in values or values != sorted(values):
            ctx.violation("grid is not an ordered list of energies", dict(info, grid=values))
            return out
        # rounding may move the resonance energy off the grid
        middle = values[len(values) // 2]
        exact = np.array(values)
        if middle != E and len(values) % 2 and not isinstance(how, tuple) or (isinstance(how, tuple) and how[0] < E < how[1]):
            if abs(middle - E) <= 1e-5 * w + 1e-14 * E:
                exact = np.unique(np.append(exact, E))
            else:
                ctx.violation("middle of a symmetric grid is not the resonance energy", dict(info, grid=values))
                return out
        got = sums(darboux(r, exact))
        info["sums"] = got
        if values[0] < values[-1]:
            out.append(Event([1] + code + [values[0], values[-1]] + got, info))
        # the accuracy of the integration is absolute, so choose a factor
        a = abs(float(r.energy_integrated_cross_section))
        c = 2.0 ** round(-np.log2(a) - float(rng.choice([0, 0, 6, 8, 10, 12]))) if a > 0 else 1.0
        integral, error = quad_partition(c * r, grid)
        out.append(
            Event([2, 1, 0.0, values[0], values[-1], integral, c] + code, dict(info, factor=c, integral=plain(integral), error=plain(error)))
        )
        if k % 3 == 0 and None not in got:
            finer = np.array(flat(r.equidistant_probability_grid(how, 2 * n - 1)))
            after = sums(darboux(r, np.unique(np.append(finer, E)) if finer[0] <= E <= finer[-1] else finer))
            # the quantiles of the coarse grid are on the finer one up to the accuracy of the inversion
            out.append(Event([3, 1e-4 * a] + got + after, dict(info, finer=after)))
    return out


def combination(ctx, rng, k):
    """Several reactions and a constant on the union of their grids."""
    kinds = [KINDS[int(rng.integers(1, 4))] for _ in range(int(rng.integers(2, 5)))]
    E, width, amu, T = regime_params(rng, int(rng.integers(3)))
    w = spread_of("pseudo_voigt", E, width, amu, T)
    if sigma_of(E, amu, T) < 0.1 * w:
        # the numerical integration overlooks reactions that are much narrower than the intervals of the grid
        kinds = ["breit_wigner" if kind == "gauss" else kind for kind in kinds]
    scale = 2.0 ** round(np.log2(E**2 / (4e5 * width)))
    parts, expr = [], None
    info = dict(parts=[])
    out = []
    with guard(ctx, info):
        for kind in kinds:
            Ek = dyadic(E + float(rng.uniform(-5, 5)) * w, 45)
            J0, J2 = int(rng.integers(0, 5)), int(rng.integers(0, 5))
            c = float(rng.choice([1.0, 0.5, 2.0, float(rng.uniform(0.1, 10))])) * scale
            wk = float(width * rng.uniform(0.5, 2))
            parts += [c, KINDS.index(kind), J0, J2, Ek, wk, amu, T]
            info["parts"].append([c, kind, J0, J2, Ek, wk, amu, T])
            term = c * simple_resonance(kind, Ek, wk, amu, T, J0, J2)
            expr = term if expr is None else [expr + term, term + expr][int(rng.integers(2))]
        const = float(rng.choice([0.0, 1.0, float(rng.uniform(0, 5))])) / w
        if const:
            expr = [expr + const, const + expr][int(rng.integers(2))]
        x = w * float(rng.uniform(3, 15))
        a, b = E - x, E + x
        n = int(rng.integers(5, 12))
        info.update(constant=const, limits=[a, b], points=n)
        grid = expr.equidistant_probability_grid([[a, b], (a, b), np.array([a, b])][k % 3], n)
        g = flat(grid)
        if None in g or not all(np.isfinite(v) for v in g) or g != sorted(g) or g[0] != a or g[-1] != b:
            ctx.violation("grid of a combination does not span the limits", dict(info, grid=g))
            return out
        integral, error = quad_partition(expr, grid)
        info["integral"] = plain(integral)
        out.append(Event([2, len(kinds), const, a, b, integral] + parts, info))
    return out


def check(ctx):
    rng = ctx.rng(16)
    model_replay(ctx)
    events = []
    for k in range(ctx.pick(500, 4000)):
        events += one_reaction(ctx, rng, k)
    for k in range(ctx.pick(80, 800)):
        events += combination(ctx, rng, k)
    canaries = []
    for e in [e for e in events if e.fields[0] == 1 and e.fields[11] > 0][:10]:
        canaries.append([e.corrupted(10, e.fields[10] + 2 * abs(e.fields[11]) + abs(e.fields[10]))])
        canaries.append([e.corrupted(11, -e.fields[11])])
    for e in [e for e in events if e.fields[0] == 2][:10] + [e for e in events if e.fields[0] == 2][-10:]:
        if e.fields[7] < 4:
            canaries.append([e.corrupted(5, e.fields[5] * 1.001 + 4e-6)])
    for e in [e for e in events if e.fields[0] == 3][:6]:
        canaries.append([e.corrupted(4, e.fields[2] - 2 * e.fields[1])])
    ctx.judge("rates_trace", groups_of(events, 15), canaries=canaries)
