"""C18: functions of arrays act on each element."""

import math

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from harness.resonances import *
from ries.resonance.debye_model import effective_temperature_debye_approximation
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann

OPERATIONS = [
    lambda a: a[::-1],
    lambda a: a[::2],
    lambda a: np.concatenate([a, a]),
    lambda a: a[:, np.newaxis],
    lambda a: a[np.newaxis, :],
    lambda a: a.T,
    lambda a: a.reshape(2, -1) if a.ndim == 1 else a.reshape(-1),
    lambda a: a[:1],
    lambda a: np.broadcast_to(a, (2,) + a.shape),
    lambda a: a[0],
]


class Function:
    """A function of the library with values for its arguments, and its results for single numbers."""

    def __init__(self, name, call, xs, ys=None):
        self.name, self.call = name, call
        self.xs, self.ys = [plain_number(v) for v in xs], None if ys is None else [plain_number(v) for v in ys]
        self.known = {}

    def single(self, i, j):
        if (i, j) not in self.known:
            r = self.call(self.xs[i]) if self.ys is None else self.call(self.xs[i], self.ys[j])
            v = flat(r)
            self.known[i, j] = v[0] if len(v) == 1 else None
        return self.known[i, j]


def plain_number(v):
    return int(v) if isinstance(v, (int, np.integer)) else float(v)


def functions(rng, n, whole=False):
    """All functions of energies, angles or temperatures; whole: arguments are whole numbers."""
    E, width, amu, T = regime_params(rng, int(rng.integers(6)))
    if whole:
        E = float(rng.integers(3, 9))
        width = float(rng.choice([0.01, 1.0]))
        energies = [int(v) for v in rng.permutation(np.arange(1, 20))[:n]]
        near = energies[:-1] + [int(E)]
        angles = [0, 1, 2, 3][:n] + [int(v) for v in rng.integers(0, 4, max(0, n - 4))]
        temperatures = [int(v) for v in rng.integers(1, 2000, n)]
        distances = [int(v) for v in rng.integers(-2, 3, n)]
    else:
        w = core_width("voigt", E, width, amu, T)
        energies = [float(v) for v in 10 ** rng.uniform(-3, 2, n)]
        near = [float(E + w * v) for v in rng.standard_cauchy(n)]
        near[int(rng.integers(n))] = E
        angles = [float(v) for v in rng.uniform(0, math.pi, n)]
        angles[int(rng.integers(n))] = float(rng.choice([0.0, math.pi, math.pi / 2]))
        temperatures = [float(v) for v in 10 ** rng.uniform(0, 3.5, n)]
        distances = [float(w * v) for v in rng.standard_cauchy(n)]
    # scattered energies that are possible for most of the initial energies
    scattered = [float(v) for v in np.min(energies) / (1 + 2 * np.min(energies) / 0.51099895 * rng.uniform(0, 1, n))]
    if rng.random() < 0.5:
        energies = [min(energies)] * n if n < 3 else [min(energies)] * 2 + energies[2:]
    r = {k: simple_resonance(k, E, width, amu, T, int(rng.integers(6)), int(rng.integers(6))) for k in KINDS}
    kn = KleinNishina(int(rng.integers(1, 93)))
    heavy = KleinNishina(1, float(10 ** rng.uniform(-1, 3)))
    symbol = ["H", "C", "Al", "Fe", "Pb", "U"][int(rng.integers(6))]
    table, atoms = xrmac_cm2_per_g[symbol], xrmac_fm2_per_atom[symbol]
    mix = 0.5 * r["gauss"] + 2.0 * kn + 3.0
    more = (mix + r["voigt"]) * 0.25 + atoms
    mb = MaxwellBoltzmann(amu, T)
    phi = float(rng.uniform(0, 6))
    one = [Function("cross section " + k, r[k], near) for k in KINDS]
    one += [Function("cross section at relative energy " + k, lambda x, k=k: r[k](x, False), distances) for k in KINDS]
    for k in ["pseudo_voigt", "voigt"]:
        d = r[k].probability_distribution
        one += [Function("distribution " + k, d.cdf, near), Function("density " + k, d.pdf, near)]
    one += [
        Function("combination", mix, near),
        Function("nested combination", more, near),
        Function("combination with zero factors", 0.0 * r["gauss"] + 0 * kn, near),
        Function("Compton", kn, energies),
        Function("Compton total", heavy.cs_total, energies),
        Function("Compton edge", heavy.compton_edge, energies),
        Function("attenuation", table, energies),
        Function("attenuation per atom", atoms, energies),
        Function("Doppler width", mb.get_doppler_width, energies),
    ]
    two = [
        Function("scattered energy", kn.Ep_over_E, energies, angles),
        Function("scattering angle", kn.theta, energies, scattered),
        Function("dOmega", lambda x, y: kn.cs_diff_dOmega(x, y, phi), energies, angles),
        Function("dOmega of azimuth", lambda x, y: heavy.cs_diff_dOmega(2.5, x, y), angles, energies),
        Function("dOmega unpolarized", heavy.cs_diff_dOmega_unpolarized, energies, angles),
        Function("dEp dphi", lambda x, y: kn.cs_diff_dEp_dphi(x, y, phi), energies, scattered),
        Function("dEp", kn.cs_diff_dEp, energies, scattered),
        Function("dtheta", kn.cs_diff_dtheta, energies, angles),
        Function("temperature of width", lambda x, y: mb.get_effective_temperature(x, amu, y), energies, energies[::-1]),
        Function("Debye", effective_temperature_debye_approximation, temperatures, temperatures[::-1]),
    ]
    return one, two


def build(values, n, ops, frozen):
    a = np.array(values[:n])
    if frozen:
        a.setflags(write=False)
    for op in ops:
        a = OPERATIONS[op](a)
    return a


def call(ctx, f, x, y, info):
    with guard(ctx, info):
        r = f.call(x) if f.ys is None else f.call(x, y)
        shape, values = list(np.shape(r)), flat(r)
        if len(shape) > 2 or values == [None]:
            ctx.violation("result is not an array of numbers with the shape of the arguments", dict(info, shape=shape))
            return None
        return shape, values
    return None


def stretch(items, shape, joint):
    return np.broadcast_to(np.array(items).reshape(shape), joint).ravel().tolist()


def same(a, b):
    if a is None or b is None:
        return False
    if math.isnan(b) or math.isinf(b):
        return repr(a) == repr(b)
    return abs(a - b) <= 1e-8 * abs(b)


def model_replay(ctx, rng):
    sets = [functions(rng, 4, whole) for whole in (False, False, True)]
    states = [parse_tla(s) for s in ctx.tlc(ctx.pick("arrays_mcq", "arrays_mct"))]
    n = 0
    for k, s in enumerate(states):
        one, two = sets[k % 3]
        opsx = [o["op"] for o in s["ops"] if o["arg"] == 0]
        opsy = [o["op"] for o in s["ops"] if o["arg"] == 1]
        sx, sy = s["x"]["shape"], s["y"]["shape"]
        todo = []
        if not opsy and s["start"][1] == 1:
            todo += one if ctx.quick else [one[(k // 3 + j) % len(one)] for j in range(4)]
        try:
            joint = list(np.broadcast_shapes(tuple(sx), tuple(sy)))
            todo += [two[k % len(two)]]
        except ValueError:
            pass
        for f in todo:
            n += 1
            a = build(f.xs, s["start"][0], opsx, n % 5 == 0)
            info = dict(function=f.name, x=np.asarray(a).tolist(), operations_x=opsx)
            if f.ys is None:
                b, want_shape = None, sx
                pairs = [(i, 0) for i in s["x"]["items"]]
            else:
                b, want_shape = build(f.ys, s["start"][1], opsy, n % 7 == 0), joint
                pairs = list(zip(stretch(s["x"]["items"], sx, joint), stretch(s["y"]["items"], sy, joint)))
                info.update(y=np.asarray(b).tolist(), operations_y=opsy)
            got = call(ctx, f, a, b, info)
            if got is None:
                continue
            ctx.traces += 1
            with guard(ctx, dict(info, call="single")):
                want = [f.single(i, j) for i, j in pairs]
                info.update(shape=got[0], values=got[1], single=want)
                if got[0] != want_shape:
                    ctx.violation("shape of the result differs from the model", dict(info, model=want_shape))
                elif len(got[1]) != len(want) or not all(same(p, q) for p, q in zip(got[1], want)):
                    ctx.violation("an element of the result differs from the result for this element alone", info)
        if k % 7000 == 3:
            ctx.samples.append(dict(function=todo[-1].name if todo else None, operations=s["ops"], shapes=[sx, sy]))


def random_operations(rng, n, steps, limit):
    """Operations that are possible one after the other."""
    a = np.arange(n)
    ops = []
    for _ in range(steps):
        if a.ndim == 0:
            break
        op = int(rng.integers(10))
        if op == 9 and rng.random() < 0.7 or op == 7 and rng.random() < 0.5:
            continue
        if op in (3, 4, 8) and a.ndim != 1 or op == 5 and a.ndim != 2 or op == 6 and a.ndim == 1 and len(a) % 2:
            continue
        b = OPERATIONS[op](a)
        if b.size > limit:
            continue
        a = b
        ops.append(op)
    return ops, np.shape(a)


def generated(ctx, rng, k):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    one, two = functions(rng, max(n, m, 4), k % 4 == 3)
    events = []
    for f in [one[int(i)] for i in rng.integers(0, len(one), 3)] + [two[int(i)] for i in rng.integers(0, len(two), 3)]:
        opsx, sx = random_operations(rng, n, int(rng.integers(0, 9)), 24)
        if f.ys is None:
            opsy, sy, my = [], (1,), 1
            # a single number as second argument would add an axis to a result without one
            if sx == ():
                opsy = [9]
        else:
            my = m
            for _ in range(20):
                opsy, sy = random_operations(rng, m, int(rng.integers(0, 9)), 24)
                try:
                    if np.prod(np.broadcast_shapes(sx, sy)) <= 40:
                        break
                except ValueError:
                    pass
            else:
                opsy, sy, my = [9], (), m
        a = build(f.xs, n, opsx, bool(rng.integers(2)))
        b = None if f.ys is None else build(f.ys, my, opsy, bool(rng.integers(2)))
        info = dict(function=f.name, x=np.asarray(a).tolist(), operations_x=opsx)
        if b is not None:
            info.update(y=np.asarray(b).tolist(), operations_y=opsy)
        got = call(ctx, f, a, b, info)
        if got is None:
            continue
        with guard(ctx, dict(info, call="single")):
            table = [f.single(i, j) for i in range(n) for j in range(my)]
            info.update(shape=got[0], values=got[1])
            fields = [1, n, len(opsx)] + opsx + [my, len(opsy)] + opsy + [len(got[0])] + got[0] + [len(got[1])]
            events.append((Event(fields + got[1] + table, info), len(fields)))
    return events


def long_arrays(ctx, rng, k):
    """Arrays in which a few values are repeated; positions over the whole array are observed."""
    m = int(rng.integers(3, 8))
    one, two = functions(rng, m, k % 4 == 3)
    events = []
    for f in [one[int(i)] for i in rng.integers(0, len(one), 4)] + [two[int(i)] for i in rng.integers(0, len(two), 2)]:
        n = int(10 ** rng.uniform(2, 5 if f.ys is None else 4))
        a = np.resize(np.array(f.xs[:m]), n)
        b = None if f.ys is None else np.resize(np.array(f.ys[:m]), n)
        info = dict(function=f.name, x=f.xs[:m], repeated_to=n)
        with guard(ctx, info):
            r = np.asarray(f.call(a) if f.ys is None else f.call(a, b))
            if r.shape != (n,):
                ctx.violation("shape of the result for a long array", dict(info, shape=r.shape))
                continue
            table = [f.single(i, i if f.ys else 0) for i in range(m)]
            positions = [0, 1, n - 2, n - 1] + [int(v) for v in rng.integers(0, n, 20)]
            # and the positions where the result is least like the first period
            odd = [j for j in np.flatnonzero(r != np.resize(r[:m], n))[:3]]
            for p in positions + [int(j) for j in odd]:
                v = flat(r[p])[0]
                events.append(Event([2, n, m, p, v] + table, dict(info, position=p, value=v)))
    return events


def check(ctx):
    rng = ctx.rng(18)
    model_replay(ctx, rng)
    events = []
    for k in range(ctx.pick(250, 2000)):
        events += generated(ctx, rng, k)
    long = []
    for k in range(ctx.pick(20, 200)):
        long += long_arrays(ctx, rng, k)
    canaries = []
    for e in [e for e in long if e.fields[4] is not None and abs(e.fields[4]) > 1e-60][::50]:
        canaries.append([e.corrupted(4, e.fields[4] * 1.0001 if math.isfinite(e.fields[4]) else 1.0)])
    for e, o in events[:30]:
        v = e.fields[o]
        if v is not None and math.isfinite(v) and abs(v) > 1e-60:
            canaries.append([e.corrupted(o, v * 1.0001)])
            canaries.append([e.corrupted(o - 1, e.fields[o - 1] + 1)])
    ctx.judge("arrays_trace", groups_of([e for e, _ in events], 30) + groups_of(long, 200), canaries=canaries)
