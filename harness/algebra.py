"""Programs over cross sections, shared by the drivers of C01, C02 and C03."""

import numpy as np

from harness.core import Event, flat, guard, parse_tla
from harness.lib import *


class Poly(CrossSection):
    """User-defined cross section with exactly representable values and its own grid."""

    def __init__(self, c):
        self.c = c

    def __call__(self, E):
        return self.c[0] + self.c[1] * E + self.c[2] * E * E

    def equidistant_probability_grid(self, limits, n_points):
        # squeezes the points towards one limit
        t = np.linspace(0.0, 1.0, n_points) ** (2 if self.c[0] >= 0 else 0.5)
        return limits[0] + (limits[1] - limits[0]) * t


class Echo(Poly):
    """User-defined cross section which returns its argument itself."""

    def __init__(self):
        Poly.__init__(self, [0, 1, 0])

    def __call__(self, E):
        return E


class Memo(Poly):
    """User-defined cross section which keeps the array it calculated and returns it again."""

    def __init__(self, c):
        Poly.__init__(self, c)
        self.kept = {}

    def __call__(self, E):
        key = (np.shape(E), np.asarray(E, dtype=float).tobytes())
        if key not in self.kept:
            self.kept[key] = Poly.__call__(self, E)
        return self.kept[key]


class LogNonresonant(Nonresonant):
    def __call__(self, E):
        return np.log(E + 1.0)


def random_atom(rng, k):
    """Returns (object, description)."""
    kind = rng.choice(
        ["poly", "echo", "memo", "const", "nonres", "kn", "xrmac", "box", "breit_wigner", "gauss", "pseudo_voigt", "voigt"]
    )
    if kind == "poly":
        c = [int(v) for v in rng.integers(-4, 5, 3)]
        return Poly(c), "poly%r" % (c,)
    if kind == "echo":
        return Echo(), "echo"
    if kind == "memo":
        c = [int(v) for v in rng.integers(-4, 5, 3)]
        return Memo(c), "memo%r" % (c,)
    if kind == "const":
        c = float(rng.choice([0.0, 1.5, -2.25, 7.0]))
        return ConstantCrossSection(c), "const(%r)" % c
    if kind == "nonres":
        return LogNonresonant(), "log"
    if kind == "kn":
        Z = int(rng.integers(1, 93))
        return KleinNishina(Z=Z), "KleinNishina(Z=%d)" % Z
    if kind == "xrmac":
        X = str(rng.choice(sorted(xrmac_fm2_per_atom)))
        return xrmac_fm2_per_atom[X], "xrmac_fm2_per_atom[%s]" % X
    E = float(rng.integers(1, 9)) / 2
    width = float(10.0 ** rng.uniform(-4, -1))
    amu, T = float(rng.uniform(5, 240)), float(rng.uniform(50, 1e6))
    return (
        simple_resonance(kind, E, width, amu, T),
        "%s(E=%r, width=%r, amu=%r, T=%r)" % (kind, E, width, amu, T),
    )


def random_scalar(rng, extreme=False):
    v = rng.choice([0, 1, -1, 2, 3, 0.5, -2.5, 1e-3, 1e6, float(rng.normal())])
    v = float(v)
    if rng.random() < 0.1:
        # nearly one or minus one
        v = float(rng.choice([-1, 1])) * (1.0 + float(rng.choice([-1, 1])) * 2.0 ** -int(rng.integers(16, 34)))
    if extreme:
        v = float(rng.choice([-1, 1, 2.5]) * 10.0 ** rng.integers(-28, 29))
    kinds = [float, np.float64] + ([int, np.int64] if v == int(v) and abs(v) < 2**53 else []) + ([bool] if v in (0, 1) else [])
    t = kinds[int(rng.integers(len(kinds)))]
    return t(v)


def moderate(events):
    """A rounding bound as large as the corruption of a canary would hide it: only use moderate values."""
    return all(abs(f) < 1e6 for e in events for f in e.fields if isinstance(f, (int, float)) and f == f)


class Program:
    """A random program; keeps the live objects and the recorded events."""

    def __init__(self, rng, n_atoms, energies):
        self.rng, self.energies = rng, energies
        self.objs, self.desc, self.dead = [], [], set()
        self.ev = [Event([0, n_atoms, len(energies)], "start of a program")]
        for k in range(n_atoms):
            a, d = random_atom(rng, k)
            self.objs.append(a)
            self.desc.append(d)
            self.ev.append(
                Event([1, k] + [flat(a(E))[0] for E in energies], {"constituent": d, "energies": energies})
            )
        self.n_atoms = n_atoms
        self.parents = {}
        # only a few, products of many would overflow
        self.extremes = int(rng.integers(3))

    def scalar(self):
        extreme = self.extremes > 0 and self.rng.random() < 0.3
        self.extremes -= extreme
        return random_scalar(self.rng, extreme)

    def live(self):
        return [i for i in range(len(self.objs)) if i not in self.dead]

    def same(self, r):
        for i, o in enumerate(self.objs):
            if o is r:
                return i
        return -1

    def push(self, r, d, parents):
        self.objs.append(r)
        self.desc.append(d)
        self.parents[len(self.objs) - 1] = set(parents)

    def step(self, choose=None):
        rng = self.rng
        live = self.live()
        a, b = (int(rng.choice(live)) for _ in range(2))
        new = len(self.objs)
        op = choose or rng.choice(["add", "add", "adds", "radds", "mul", "rmul", "sum", "aug", "augmul", "build", "empty", "const"],
                                  p=[0.16, 0.16, 0.08, 0.08, 0.12, 0.12, 0.1, 0.06, 0.05, 0.03, 0.02, 0.02])
        A, B = self.objs[a], self.objs[b]
        if op == "add":
            d = "(#%d + #%d)" % (a, b)
            r = A + B
            self.ev.append(Event([2, a, b, new, self.same(r)], d))
            self.push(r, d, [a, b])
        elif op == "aug":
            d = "x = #%d; x += #%d" % (a, b)
            r = A
            r += B
            self.ev.append(Event([2, a, b, new, self.same(r)], d))
            self.push(r, d, [a, b])
        elif op in ("adds", "radds"):
            c = self.scalar()
            d = "(#%d + %r)" % (a, c) if op == "adds" else "(%r + #%d)" % (c, a)
            r = A + c if op == "adds" else c + A
            self.ev.append(Event([3, a, float(c), new, self.same(r)], d))
            self.push(r, d, [a])
        elif op in ("mul", "rmul", "augmul"):
            c = self.scalar()
            d = "(#%d * %r)" % (a, c) if op != "rmul" else "(%r * #%d)" % (c, a)
            if op == "augmul":
                r = A
                r *= c
            else:
                r = A * c if op == "mul" else c * A
            self.ev.append(Event([4, a, float(c), new, self.same(r)], d))
            self.push(r, d, [a])
        elif op == "sum":
            ids = [int(i) for i in rng.choice(live, int(rng.integers(1, 5) if rng.random() < 0.9 else rng.integers(5, 120)))]
            d = "sum(%s)" % ", ".join("#%d" % i for i in ids)
            r = sum([self.objs[i] for i in ids])
            self.ev.append(Event([5, new, self.same(r), len(ids)] + ids, d))
            self.push(r, d, ids)
        elif op == "build":
            ids = [int(i) for i in rng.choice(live, int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(4, 120)))]
            c = [float(self.scalar()) for _ in ids]
            if rng.random() < 0.3:
                c = [1.0] * len(ids)
                r = CrossSectionWeightedSum([self.objs[i] for i in ids])
            else:
                r = CrossSectionWeightedSum([self.objs[i] for i in ids], list(c))
            d = "combination(%r, %r)" % (ids, c)
            self.ev.append(Event([17, new, len(ids)] + [v for p in zip(ids, c) for v in p], d))
            self.push(r, d, ids)
        elif op == "empty":
            r = CrossSectionWeightedSum()
            self.ev.append(Event([15, new, self.same(r)], "empty combination"))
            self.push(r, "empty combination", [])
        elif op == "const":
            c = float(self.scalar())
            self.ev.append(Event([16, c, new], "constant %r" % c))
            self.push(ConstantCrossSection(c), "constant %r" % c, [])
        return new

    def describe(self, i):
        return {"object": "#%d" % i, "program": ["#%d = %s" % (k, d) for k, d in enumerate(self.desc[: i + 1])]}

    def eval_all(self, i):
        E = np.array(self.energies)
        r = self.objs[i](E)
        vals = flat(np.broadcast_to(np.asarray(r, dtype=float), E.shape))
        self.ev.append(Event([6, i] + vals, dict(self.describe(i), energies=self.energies, values=vals)))

    def eval_2d(self, i):
        E = np.array(self.energies).reshape(2, -1)
        r = self.objs[i](E)
        vals = flat(np.broadcast_to(np.asarray(r, dtype=float), E.shape))
        self.ev.append(Event([6, i] + vals, dict(self.describe(i), energies="2-d", values=vals)))

    def eval_one(self, i, k):
        v = flat(self.objs[i](self.energies[k]))[0]
        self.ev.append(Event([14, i, k, v], dict(self.describe(i), energy=self.energies[k], value=v)))


def tlc_programs(ctx):
    """All states of the small-scope model, as (operations, expected objects)."""
    for module in ctx.pick(["algebra_mc2"], ["algebra_mc2", "algebra_mc3"]):
        for s in ctx.tlc(module):
            st = parse_tla(s)
            yield st["hist"], st["heap"]


def base_objects(heap, ops, x, y):
    """The objects at the beginning of a model behaviour."""
    both = CrossSectionWeightedSum([x, y], [2, 3])
    return [x, y] if len(heap) - len(ops) == 2 else [x, y, CrossSectionWeightedSum(), both]


def replay_ops(ops, objs):
    """Run the operations of a model behaviour on real objects, appending to objs."""
    for o in ops:
        a, b, c = o["a"], o["b"], o["c"]
        op = o["op"]
        if op == 0:
            r = objs[a] + objs[b]
        elif op == 1:
            r = objs[a] + c
        elif op == 2:
            r = c + objs[a]
        elif op == 3:
            r = objs[a] * c
        elif op == 4:
            r = c * objs[a]
        else:
            r = sum([objs[a], objs[b]])
        objs.append(r)
    return objs
