"""Sessions with the library (C15): catalogue of objects and queries, and their execution in separate processes.

Run as a program, reads jobs from standard input, executes each of them in a forked (fresh) process,
and writes the observations to standard output."""

import decimal
import gc
import hashlib
import json
import locale
import os
import pickle
import random
import sys
import warnings

import numpy as np


def digest(x):
    """62-bit fingerprint."""
    return int.from_bytes(hashlib.sha256(repr(x).encode()).digest()[:8], "big") >> 2


def freeze(x):
    """Content of a result, independent of the container type."""
    if x is None or isinstance(x, (str, bool, np.bool_)):
        return str(x)
    if isinstance(x, (int, float, np.number)):
        v = float(x) + 0.0
        return "nan" if v != v else v.hex()
    if isinstance(x, np.ndarray):
        a = np.where(np.isnan(np.asarray(x, dtype=float)), np.nan, np.asarray(x, dtype=float) + 0.0)
        return ("array", a.shape, hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest())
    if isinstance(x, dict):
        return ("dict", sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("list", [freeze(v) for v in x])
    if hasattr(x, "amu"):
        return ("isotope", str(getattr(x, "AX", "")), freeze(x.amu))
    if callable(x):
        return ("function", [freeze(x(E)) for E in (0.5, 1.0, 2.5)])
    return type(x).__name__


def scribble(x):
    """Overwrite whatever can be overwritten in a result."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiub":
            x[...] = -7
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x[:] = [-7.0]
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def settings():
    e = np.random.get_state()
    return digest(
        (
            sorted(np.geterr().items()),
            repr(np.geterrcall()),
            sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
            np.getbufsize(),
            [tuple(map(repr, f)) for f in warnings.filters],
            repr(warnings.showwarning),
            e[0],
            e[1].tobytes(),
            e[2:],
            hash(random.getstate()),
            repr(decimal.getcontext()),
            locale.setlocale(locale.LC_ALL),
            os.getcwd(),
            sorted(os.environ.items()),
            sys.getrecursionlimit(),
        )
    )


WARNED = []


def collect(message, category, *rest, **more):
    """Takes the place of the display of warnings."""
    if category is UserWarning:
        WARNED.append(str(message))


class Arguments:
    """Array arguments of the queries; reuse: the same memory is filled again for each query."""

    def __init__(self, reuse):
        self.reuse, self.buffers, self.used = reuse, {}, []

    def __call__(self, values):
        v = np.array(values, dtype=float)
        if self.reuse:
            b = self.buffers.setdefault(v.shape, np.zeros(v.shape))
            b[...] = v
            v = b
        self.used.append(v)
        return v

    def list(self, values):
        v = [float(x) for x in values]
        if self.reuse:
            b = self.buffers.setdefault(("list", len(v)), [])
            b[:] = v
            v = b
        self.used.append(v)
        return v

    def content(self):
        return digest([freeze(v) for v in self.used])


# ----------------------------------------------------------------------------- catalogue


def spread(rng, *parts):
    return [float(p(rng)) if callable(p) else p for p in parts]


def catalogue(seed, data_dir, n_configs=4):
    """World -> (list of configurations, constructor, list of queries (name, function of object and arguments))."""
    from harness import lib
    from ries.constituents.element import Element, natural_elements
    from ries.constituents.isotope import Isotope
    from ries.constituents.natural_element_data import Geant4DensityDataReader, NISTElementDataReader
    from ries.constituents.state import GroundState, State
    from ries.cross_section import ConstantCrossSection, CrossSectionWeightedSum
    from ries.integration.darboux import darboux
    from ries.integration.quad_partition import quad_partition
    from ries.nonresonant.klein_nishina import KleinNishina
    from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom
    from ries.resonance.debye_model import effective_temperature_debye_approximation
    from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann
    from ries.resonance.pseudo_voigt import PseudoVoigtDistribution
    from ries.resonance.recoil import FreeNucleusRecoil, NoRecoil
    from ries.resonance.voigt import SemiPseudoVoigtDistribution

    rng = np.random.default_rng([seed & 0xFFFFFFFF, 1500])

    def related(base, factors):
        """Configurations which differ from the first in one parameter each, one of them only a little."""
        out = [list(base)]
        for k, (i, f) in enumerate(factors):
            c = list(base)
            c[i] = c[i] * (f if k != 1 else 1 + 1e-7)
            out.append(c)
        return out[:n_configs]

    worlds = {}

    # resonances
    E = round(float(rng.uniform(1, 9)), 3)
    width = float(10 ** rng.uniform(-7, -2))
    amu = float(rng.uniform(5, 240))
    T = float(rng.uniform(50, 900))
    order = [(i, f) for i, f in zip(rng.permutation(4), [1.25, 1.5, 0.75, 2.0])]
    for kind in lib.KINDS:

        def make(c, kind=kind):
            g = GroundState("0^+", 0, 1)
            m = State("2^+", 4, 1, 0.25, {"0^+": 1e-9})
            e = State("1^-", 2, -1, c[0], {"0^+": c[1], "2^+": 0.25 * c[1]})
            final = [None, g, m][int(c[4])]
            return lib.make_resonance(kind, g, e, c[2], c[3], final)

        configs = related([E, width, amu, T, 0], order)
        configs[1][4] = 1
        configs[-1][4] = 2
        near = [E - 2 * width, E, E + 0.01 * width, E + 1e-5]
        queries = [
            ("value", lambda o, a, x: o(x), [E, E + width, 1.25 * E]),
            ("values", lambda o, a, x: o(a(x)), [near, [v + width for v in near]]),
            ("relative", lambda o, a, x: o(a(x), input_is_absolute_energy=False), [[0.0, width], [1e-5, -width]]),
            ("coverage", lambda o, a, x: o.coverage_interval(x), [0.5, 0.25, 0.9]),
            ("energy grid", lambda o, a, x: o.equidistant_energy_grid(x, 5), [0.5, 0.9]),
            ("energy grid in limits", lambda o, a, x: o.equidistant_energy_grid(a(x), 5), [[E - width, E + width], [E - 1e-4, E], [-1.0, E]]),
            ("probability grid", lambda o, a, x: o.equidistant_probability_grid(x[0], x[1]), [(0.5, 5), (0.5, 6), (0.8, 5)]),
            ("probability grid in limits", lambda o, a, x: o.equidistant_probability_grid(a(x), 5), [[E - width, E + width], [E - 2 * width, E], [-E, 2 * E], [E + 1.0, E - 1.0]]),
            ("probability grid in list", lambda o, a, x: o.equidistant_probability_grid(a.list(x), 4), [[E - width, E + width], [E - 2 * width, E], [-1.0, E + 1.0]]),
            ("integral", lambda o, a, x: [o.energy_integrated_cross_section, o.get_energy_integrated_cross_section(), o.statistical_factor, o.get_statistical_factor(), o.get_final_state_branching_ratio()], [0]),
            ("sum", lambda o, a, x: o + x, [1.0, 2.0]),
            ("product", lambda o, a, x: x * o, [1.5, 3.0]),
        ]
        worlds[kind] = (configs, make, queries)

    # resonances which reach down to zero energy
    for kind in ("box", "breit_wigner", "voigt"):
        low = [0.3, float(rng.uniform(0.2, 0.6)), 2.0, 1e6, 0]
        queries = [
            ("coverage", lambda o, a, x: o.coverage_interval(x), [0.5, 0.9, 0.99, 1]),
            ("energy grid", lambda o, a, x: o.equidistant_energy_grid(x, 5), [0.5, 0.9]),
            ("probability grid", lambda o, a, x: o.equidistant_probability_grid(x, 4), [0.5, 0.9]),
            ("value", lambda o, a, x: o(x), [0.0, 0.3]),
        ]
        worlds["low " + kind] = (related(low, [(0, 1.25), (1, 1.5), (0, 0.5)]), worlds[kind][1], queries)

    # distributions
    for name, cls in [("pseudo_voigt distribution", PseudoVoigtDistribution), ("voigt distribution", SemiPseudoVoigtDistribution)]:
        near = [E - 1e-5, E - width, E, E + 0.5 * width]
        queries = [
            ("pdf", lambda o, a, x: o.pdf(a(x)), [near, [v + width for v in near]]),
            ("cdf", lambda o, a, x: o.cdf(a(x)), [near, [v + width for v in near]]),
            ("ppf", lambda o, a, x: o.ppf(a(x)), [[0.25, 0.5, 0.9], [0.2, 0.5, 0.7]]),
            ("one ppf", lambda o, a, x: o.ppf(x), [0.3, 0.6]),
            ("one cdf", lambda o, a, x: o.cdf(x), [E, E + width]),
            ("widths", lambda o, a, x: [o.get_Gamma(), o.get_eta(), o.Gamma, o.eta], [0]),
        ]
        worlds[name] = (related([E, width, amu, T], order), lambda c, cls=cls: cls(*c[:4]), queries)

    # thermal motion and recoil
    worlds["maxwell_boltzmann"] = (
        related([amu, T], [(0, 1.25), (1, 1.5), (1, 0.5)]),
        lambda c: MaxwellBoltzmann(*c),
        [
            ("width", lambda o, a, x: o.get_doppler_width(x), [E, 2 * E]),
            ("widths", lambda o, a, x: o.get_doppler_width(a(x)), [[E, 2 * E], [0.5, 1.0]]),
            ("temperature", lambda o, a, x: o.get_effective_temperature(x, o.amu, E), [1e-6, 2e-6]),
        ],
    )
    TD = float(rng.uniform(50, 500))
    worlds["debye"] = (
        [[TD], [1.25 * TD], [2 * TD], [0.5 * TD]],
        lambda c: c,
        [
            ("one", lambda o, a, x: effective_temperature_debye_approximation(x, o[0]), [T, 2 * T, 293.0]),
            ("array", lambda o, a, x: effective_temperature_debye_approximation(a(x), o[0]), [[T, 2 * T], [293.0, 4.2]]),
            ("other array", lambda o, a, x: effective_temperature_debye_approximation(x, a([o[0], 2 * o[0]])), [T, 2 * T]),
        ],
    )
    worlds["recoil"] = (
        [[amu], [1.25 * amu], [2 * amu], [0.0]],
        lambda c: FreeNucleusRecoil(c[0]) if c[0] else NoRecoil(),
        [
            ("one", lambda o, a, x: o(x), [E, 2 * E]),
            ("array", lambda o, a, x: o(a(x)), [[E, 2 * E], [0.5, 1.0]]),
        ],
    )

    # Compton scattering
    th = float(rng.uniform(0.2, 3))
    kn = [
        ("total", lambda o, a, x: o(x), [E, 0.1, 1.0]),
        ("totals", lambda o, a, x: o(a(x)), [[E, 0.1], [0.5, 1.0]]),
        ("cs_total", lambda o, a, x: o.cs_total(a(x)), [[E, 0.1], [0.5, 1.0]]),
        ("edge", lambda o, a, x: o.compton_edge(x), [E, 1.0]),
        ("theta", lambda o, a, x: o.theta(x, o.Ep_over_E(x, th) * x), [E, 1.0]),
        ("thetas", lambda o, a, x: o.theta(a(x), o.Ep_over_E(a(x), th) * a(x)), [[E, 2 * E], [1.0, 1.5]]),
        ("ratio", lambda o, a, x: o.Ep_over_E(E, a(x)), [[0.1, 2.0], [th, 3.0]]),
        ("dOmega", lambda o, a, x: o.cs_diff_dOmega(E, a(x), 0.5), [[0.1, 2.0], [th, 3.0]]),
        ("dOmega unpolarized", lambda o, a, x: o.cs_diff_dOmega_unpolarized(E, a(x)), [[0.1, 2.0], [th, 3.0]]),
        ("dEp dphi", lambda o, a, x: o.cs_diff_dEp_dphi(1.0, a(x), 0.3), [[0.5, 0.7], [0.6, 0.9]]),
        ("dEp", lambda o, a, x: o.cs_diff_dEp(1.0, a(x)), [[0.5, 0.7], [0.6, 0.9]]),
        ("dtheta", lambda o, a, x: o.cs_diff_dtheta(E, a(x)), [[0.1, 2.0], [th, 3.0]]),
        ("energy grid", lambda o, a, x: o.equidistant_energy_grid(a(x), 5), [[0.1, 2.0], [0.5, E]]),
        ("probability grid", lambda o, a, x: o.equidistant_probability_grid(a.list(x), 5), [[0.1, 2.0], [0.5, E]]),
        ("sum", lambda o, a, x: o + x, [1.0, 2.0]),
    ]
    worlds["klein_nishina"] = ([[1, 0.0], [26, 0.0], [1, 105.66], [2, 0.0]], lambda c: KleinNishina(c[0], c[1]) if c[1] else KleinNishina(c[0]), kn)
    worlds["klein_nishina default"] = ([[1, 0.0]] * 2, lambda c: KleinNishina(), kn)

    # constants and sums
    grids = [
        ("value", lambda o, a, x: o(x), [E, 1.0, 2.5]),
        ("energy grid", lambda o, a, x: o.equidistant_energy_grid(a(x), 5), [[0.1, 2.0], [E - width, E + width]]),
        ("probability grid", lambda o, a, x: o.equidistant_probability_grid(a(x), 5), [[E - 1.0, E + 2.0], [E - width, E + width], [-E, 2 * E]]),
        ("probability grid in list", lambda o, a, x: o.equidistant_probability_grid(a.list(x), 4), [[E - 1.0, E + 2.0], [E - width, E + width], [-1.0, E]]),
        ("plus", lambda o, a, x: o + x, [1.0, 0.5]),
        ("plus from the left", lambda o, a, x: x + o, [1.0, 0.5]),
        ("times", lambda o, a, x: o * x, [2.0, 3.0]),
        ("doubled", lambda o, a, x: o + o, [0]),
    ]
    worlds["constant"] = ([[1.0], [2.0], [0.0], [1.5]], lambda c: ConstantCrossSection(c[0]), grids)
    shared = {}

    def parts():
        if not shared:
            shared["l"] = [worlds["breit_wigner"][1](worlds["breit_wigner"][0][0]), worlds["gauss"][1](worlds["gauss"][0][1]), KleinNishina(3)]
        return shared["l"]

    def make_sum(c):
        p = parts()
        if c[0] == 0:
            return CrossSectionWeightedSum()
        if c[0] == 1:
            return p[0] + p[1]
        if c[0] == 2:
            return 2.0 * (p[0] + p[2]) + p[1]
        return CrossSectionWeightedSum([p[1], p[2]], [1.5, 0.5]) + 1.0

    array_grids = grids + [("values", lambda o, a, x: o(a(x)), [[E, 1.0], [E - width, E + width]])]
    worlds["sum"] = ([[1], [2], [3], [0]], make_sum, array_grids)

    # attenuation
    tables = []
    for k in range(n_configs):
        e = np.cumsum(rng.uniform(0.1, 1.0, 6))
        tables.append([[float(e[i]), float(rng.uniform(0.1, 10)), float(rng.uniform(0.1, 1))] for i in range(6)])
    # tables that differ in one line between the first and the last, in one column or in the order of the values only
    tables[2] = [list(row) for row in tables[0]]
    tables[2][1 + int(rng.integers(4))][int(rng.integers(1, 3)) if rng.random() < 0.3 else 1] *= float(rng.uniform(1.2, 3))
    tables[3] = [list(row) for row in tables[0]]
    which = int(rng.integers(3))
    if which == 0:
        row = 1 + int(rng.integers(4))
        tables[3][row][0] = (tables[0][row][0] + tables[0][row + 1][0]) / 2
    elif which == 1:
        for row, other in zip(tables[3], reversed(tables[0])):
            row[1] = other[1]
    else:
        for row in tables[3]:
            row[2] *= 2.0
    lo, hi = 0.05, 7.0
    att = [
        ("value", lambda o, a, x: o(x), [1.0, lo, hi, 2.5]),
        ("values", lambda o, a, x: o(a(x)), [[1.0, 2.0, 3.0], [0.3, 1.5, hi]]),
        ("energy grid", lambda o, a, x: o.equidistant_energy_grid(a(x), 5), [[0.1, 2.0], [1.0, E]]),
        ("probability grid", lambda o, a, x: o.equidistant_probability_grid(a(x), 5), [[0.1, 2.0], [1.0, E]]),
        ("times", lambda o, a, x: x * o, [2.0, 3.0]),
    ]
    worlds["xrmac from array"] = (tables, lambda c: XRMAC(np.array(c)), att)
    worlds["xrmac converted"] = (
        [tables[0] + [1.0], tables[0] + [2.0], tables[1] + [1.0], tables[1] + [1e3]],
        lambda c: XRMAC(np.array(c[:6]), lambda e: e * c[6], lambda v: v * 2.0 * c[6]),
        att,
    )

    def from_file(c):
        path = os.path.join(data_dir, "table%d.txt" % digest(c))
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write("".join("%s%.6E %.6E %.6E\n" % (["", "K  "][int(c[6])], *row) for row in c[:6]))
        return path

    worlds["xrmac from file"] = ([tables[0] + [0], tables[1] + [1], tables[2] + [0], tables[3] + [0]], lambda c: XRMAC(from_file(c)), att)
    # one file, several conversions
    worlds["xrmac from converted file"] = (
        [tables[0] + [0, 1.0, 1.0], tables[0] + [0, 1.0, 2.0], tables[0] + [0, 2.0, 1.0], tables[1] + [0, 1.0, 2.0]],
        lambda c: XRMAC(from_file(c[:7]), lambda e: e * c[7], lambda v: v * c[8]),
        att,
    )
    symbols = [str(s) for s in rng.choice(sorted(s for s in xrmac_cm2_per_g if s not in ("Tc", "Pm", "Po", "At", "Rn", "Fr", "Ra", "Ac")), 4, replace=False)]
    worlds["attenuation per gram"] = ([[s] for s in symbols], lambda c: xrmac_cm2_per_g[c[0]], att)
    worlds["attenuation per atom"] = ([[s] for s in symbols], lambda c: xrmac_fm2_per_atom[c[0]], att)

    # elements
    worlds["elements"] = (
        [[s] for s in symbols],
        lambda c: natural_elements[c[0]],
        [
            ("mass", lambda o, a, x: o.amu, [0]),
            ("computed mass", lambda o, a, x: Element.amu_from_isotopic_composition(o.abundances, o.isotopes), [0]),
            ("density", lambda o, a, x: o.density, [0]),
            ("data", lambda o, a, x: [o.Z, o.X, freeze(o.abundances), freeze(o.isotopes)], [0]),
        ],
    )

    def make_element(c):
        isotopes = {"a": Isotope("a", c[0]), "b": Isotope("b", c[0] + 1.0)}
        return Element(5, "Q", isotopes, {"a": c[1], "b": 1.0 - c[1]}, c[2])

    worlds["own elements"] = (
        [[10.0, 0.5, 1.0], [10.0, 0.25, 1.0], [11.0, 0.5, 1.0], [10.0, 0.5, None]],
        make_element,
        [
            ("mass", lambda o, a, x: o.amu, [0]),
            ("computed mass", lambda o, a, x: o.amu_from_isotopic_composition(o.abundances, o.isotopes), [0]),
            ("other mass", lambda o, a, x: o.amu_from_isotopic_composition({"a": x, "b": 1 - x}, o.isotopes), [0.5, 0.75]),
            ("density", lambda o, a, x: o.density, [0]),
        ],
    )
    import ries.constituents.element as element_module

    here = os.path.dirname(os.path.abspath(element_module.__file__))
    zs = [int(z) for z in rng.choice(np.arange(1, 93), 3, replace=False)]

    def table_of(c, text):
        """Own file in the format of a data file."""
        path = os.path.join(data_dir, "own%d.txt" % digest(c))
        if not os.path.exists(path):
            with open(path, "w") as f:
                f.write(text)
        return path

    def own_elements(c):
        rows = [(z, a, z + a + c[1], 0.5) for z in sorted(zs) for a in (1, 2)]
        form = "Atomic Number = %d\nAtomic Symbol = Q\nMass Number = %d\nRelative Atomic Mass = %.3f(1)\nIsotopic Composition = %.3f(1)\n\n"
        return table_of(c, "".join(form % row for row in rows))

    worlds["element reader"] = (
        [["elements", 0], ["own", 0.25], ["own", 0.5], ["elements", 0]],
        lambda c: NISTElementDataReader(own_elements(c) if c[0] == "own" else os.path.join(here, "nist_elements", "elements.txt")),
        [
            ("data", lambda o, a, x: o.read_nist_element_data(x), zs),
            ("symbols", lambda o, a, x: o.read_nist_element_symbols(), [0]),
        ],
    )

    def own_densities(c):
        return table_of(c, "".join("%-2s %.3f\n" % (s, c[1] + i) for i, s in enumerate(symbols + ["Og", "Qx"])))

    def density_reader(c):
        path = own_densities(c[:2]) if c[0] == "own" else os.path.join(here, "geant4_densities", "element_densities.txt")
        return Geant4DensityDataReader(path, lambda rho: c[2] * rho) if c[2] else Geant4DensityDataReader(path)

    worlds["density reader"] = (
        [["densities", 0, 0], ["own", 1.0, 0], ["own", 2.0, 1e3], ["densities", 0, 1e3]],
        density_reader,
        [("density", lambda o, a, x: o.read_density_data(x), symbols + ["Og", "Qx"])],
    )

    # level schemes
    g0, g2 = GroundState("0^+", 0, 1), GroundState("2^+", 4, 1)

    def make_state(c):
        return State("1^-", 2, -1, c[0], {"0^+": c[1], "2^+": c[2]})

    worlds["state"] = (
        [[1.0, 0.5, 0.25], [1.0, 0.5, 0.0], [2.0, 0.5, 0.25], [1.0, 0.0, 0.0]],
        make_state,
        [
            ("excitation", lambda o, a, x: lib.make_resonance(lib.KINDS[x[0]], g0, o, 10.0, 300.0, [None, g0, g2][x[1]]).energy_integrated_cross_section, [[1, 2], [1, 0], [0, 1], [3, 2]]),
            ("width", lambda o, a, x: o.width, [0]),
            ("energy", lambda o, a, x: o.excitation_energy, [0]),
            ("widths", lambda o, a, x: [o.partial_widths[k] for k in sorted(o.partial_widths)], [0]),
            ("ground state", lambda o, a, x: [o.two_J, o.parity, o.J_pi], [0]),
        ],
    )
    worlds["isotope"] = (
        [[10.0, 0], [11.0, 0], [10.0, 1], [11.0, 1]],
        lambda c: Isotope("q", c[0], GroundState("0^+", 0, 1), [make_state([1.0, 0.5, 0.25])] if c[1] else None),
        [
            ("mass", lambda o, a, x: o.amu, [0]),
            ("levels", lambda o, a, x: [s.excitation_energy for s in o.excited_states], [0]),
        ],
    )

    # integration
    xs = np.cumsum(rng.uniform(0.1, 1, 5)).tolist()
    worlds["darboux"] = (
        [[1.0, 0.5], [1.0, -0.5], [2.0, 0.5], [0.0, 1.0]],
        lambda c: (lambda x: c[0] + c[1] * x),
        [
            ("function", lambda o, a, x: darboux(o, a(x)), [xs, [v + 1 for v in xs]]),
            ("values", lambda o, a, x: darboux(a([o(v) for v in x]), np.array(x)), [xs, [v + 1 for v in xs]]),
            ("list", lambda o, a, x: darboux(a.list([o(v) for v in x]), a(x)), [xs, [v + 1 for v in xs]]),
        ],
    )
    worlds["quad_partition"] = (
        [[1.0, 2], [1.0, 3], [0.5, 2], [-1.0, 1]],
        lambda c: (lambda x, y=1.0: c[0] * x ** c[1] * (1 + y)),
        [
            ("one", lambda o, a, x: quad_partition(lambda v: o(v), a(x)), [[0.0, 1.0, 2.5], [0.0, 0.5, 2.0]]),
            ("list", lambda o, a, x: quad_partition(lambda v: o(v), a.list(x), []), [[0.0, 1.0, 2.5], [0.0, 0.5, 2.0]]),
            ("two", lambda o, a, x: quad_partition(o, a(x), [a.list([0.5, 1.5])]), [[0.0, 1.0, 2.5], [0.0, 0.5, 2.0]]),
        ],
    )

    # for each query an argument that differs only a little from another one
    def similar(x):
        if isinstance(x, float):
            return x * (1 - 1e-7)
        if isinstance(x, list) and isinstance(x[-1], float):
            return x[:-1] + [x[-1] * (1 - 1e-7)]
        return None

    return {
        name: (configs, make, [(q, call, list(xs) + [v for v in [similar(xs[0])] if v is not None]) for q, call, xs in queries])
        for name, (configs, make, queries) in worlds.items()
    }


def key_of(world, config, query, argument):
    return digest((world, config, query, argument))


# ----------------------------------------------------------------------------- execution


class Session:
    """One history. Operations: [0, world, config], [1, object, query, argument], [2, result], [3, object]."""

    def __init__(self, worlds, reuse):
        self.worlds, self.arguments = worlds, Arguments(reuse)
        self.objects, self.results, self.out = [], [], []

    def run(self, ops):
        for op in ops:
            if op[0] == 0:
                configs, make, _ = self.worlds[op[1]]
                try:
                    self.objects.append((op[1], op[2], make(configs[op[2]])))
                except Exception as e:
                    self.objects.append((op[1], op[2], e))
            elif op[0] == 1:
                world, config, obj = self.objects[op[1]]
                configs, _, queries = self.worlds[world]
                name, f, args = queries[op[2]]
                self.arguments.used = []
                g0 = settings()
                made = Recorder(self.arguments)
                WARNED.clear()
                try:
                    if isinstance(obj, Exception):
                        raise obj
                    r = f(obj, made, args[op[3]])
                    content = freeze(r)
                except Exception as e:
                    r, content = None, ("exception", type(e).__name__)
                g1 = settings()
                h = digest((content, WARNED) if WARNED else content)
                label = [world, configs[config], name, args[op[3]]]
                self.out.append([1, key_of(*label), h, label, str(content)[:200] + "".join("; warning: " + w for w in WARNED)])
                self.out.append([2, made.before(), self.arguments.content(), label, ""])
                self.out.append([3, g0, g1, label, ""])
                self.results.append([r, digest(content), label, True])
            elif op[0] == 3:
                # nothing may hold the object any more, so that its memory can be used again
                self.objects[op[1]] = obj = None
                gc.collect()
            else:
                r = self.results[op[1]]
                scribble(r[0])
                r[3] = False
        if not self.arguments.reuse:
            for r, h, label, untouched in self.results:
                if untouched and isinstance(r, (np.ndarray, list, dict, tuple)):
                    self.out.append([4, h, digest(freeze(r)), label, ""])
        return self.out


class Recorder:
    """Arguments of one query; remembers the content before the query."""

    def __init__(self, arguments):
        self.arguments, self.seen = arguments, []

    def __call__(self, values):
        v = self.arguments(values)
        self.seen.append(freeze(v))
        return v

    def list(self, values):
        v = self.arguments.list(values)
        self.seen.append(freeze(v))
        return v

    def before(self):
        return digest(self.seen)


def forked(f):
    """Result of f, computed in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as out:
                pickle.dump(f(), out)
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as inp:
        data = inp.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        raise RuntimeError("a session ended with status %d" % status)
    return pickle.loads(data)


def main():
    job = json.load(sys.stdin)
    warnings.simplefilter("always")
    warnings.showwarning = collect
    worlds = catalogue(job["seed"], job["dir"])
    out = []
    gc.freeze()
    for ops in job["sessions"]:
        reuse = bool(ops[0])
        run = lambda: Session(worlds, reuse).run(ops[1:])
        out.append(run() if job["direct"] else forked(run))
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.dont_write_bytecode = True
    from harness import core

    main()
