"""C17: nuclear data are kept as given and separately, recoil conserves energy and momentum."""

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from harness.lib import *
from harness.session import digest
from ries.constituents.element import Element, natural_elements
from ries.constituents.isotope import Isotope
from ries.resonance.recoil import Recoil


def level(number):
    return State("level %d" % number, number % 7, 1 - 2 * (number % 2), 0.5 + number, {"gs": 0.25})


def numbers(levels):
    return [s.excitation_energy - 0.5 for s in levels]


def replay(ctx):
    """Every history of the model, all objects are observed at the end."""
    for n, s in enumerate(ctx.tlc(ctx.pick("nuclides_mcq", "nuclides_mct"))):
        st = parse_tla(s)
        ops = st["hist"]
        if not ops or (not ctx.quick and n % 4):
            continue
        info = {"operations": ops}
        with guard(ctx, info):
            isos, elements, made, observed = [], [], 0, []
            for o in ops:
                if o["op"] == 0:
                    isos.append(Isotope("i%d" % len(isos), o["i"], GroundState("gs", 0, 1)) if n % 2 else Isotope("i%d" % len(isos), o["i"]))
                elif o["op"] == 1:
                    isos.append(Isotope("i%d" % len(isos), float(o["i"]), excited_states=[level(made)]))
                    made += 1
                elif o["op"] == 2:
                    isos[o["i"]].excited_states.append(level(made))
                    made += 1
                else:
                    a, b = isos[o["i"]], isos[o["j"]]
                    ab = {a.AX: o["q"] / 4, b.AX: 1 - o["q"] / 4}
                    elements.append(Element(n % 100, "Q", {a.AX: a, b.AX: b}, ab))
            ctx.traces += 1
            got = [numbers(i.excited_states) for i in isos]
            if got != st["due"]:
                ctx.violation("levels of the isotopes differ from the model", dict(info, model=st["due"], library=got))
            got = [4 * e.amu for e in elements]
            if got != st["mass"]:
                ctx.violation("masses of the elements differ from the model", dict(info, model=st["mass"], library=flat(got)))
            got = [i.amu for i in isos]
            if got != [i["amu"] for i in st["isos"]]:
                ctx.violation("masses of the isotopes differ from the model", dict(info, library=flat(got)))
            if n % 4000 == 5:
                ctx.samples.append(dict(info, levels=st["due"], masses=st["mass"]))


def kept(given, seen, info):
    return Event([3, len(given)] + list(given) + list(seen), dict(info, given=list(given), seen=list(seen)))


def label(x):
    """Numbers stay numbers, everything else becomes a fingerprint."""
    return x if x is None or isinstance(x, (int, float, np.number)) else digest(str(x))


def check(ctx):
    rng = ctx.rng(17)
    ctx.tlc_refutes("nuclides_mcs")
    replay(ctx)
    events = []

    # recoil
    masses = [float(i.amu) for e in natural_elements.values() for i in e.isotopes.values()]
    for k in range(ctx.pick(700, 7000)):
        amu = float(rng.choice(masses)) if k % 2 else float(10 ** rng.uniform(-3, 3))
        E = [float(rng.uniform(0.001, 20)), float(10 ** rng.uniform(-6, 4)), int(rng.integers(1, 30)), 0.0][min(3, k % 7)]
        info = dict(amu=amu, energy_difference=E)
        with guard(ctx, info):
            free, other = FreeNucleusRecoil(amu), FreeNucleusRecoil(2 * amu)
            value = free(E)
            events.append(Event([1, E, amu, value], info))
            events.append(Event([1, E, 2 * amu, other(E)], dict(info, amu=2 * amu)))
            events.append(Event([2, E, [NoRecoil, Recoil][k % 2]()(E)], dict(info, recoil="none")))
            x = np.array([E, 2 * E, 0.5 * E])
            y = flat(free(x))
            events += [Event([1, a, amu, b], dict(info, array=x.tolist())) for a, b in zip(x.tolist(), y if len(y) == 3 else [None] * 3)]
            events.append(kept([E, 2 * E, 0.5 * E], x.tolist(), dict(info, call="argument")))
            # as correction of a resonance, which must not be remembered by later resonances
            E0 = dyadic(float(rng.uniform(0, 5)))
            E2 = E0 + dyadic(float(rng.uniform(0.1, 10)))
            g = State("a", 1, 1, E0, {"gs": 1.0}) if E0 else GroundState("a", 1, 1)
            e = State("b", 3, 1, E2, {"a": 1e-6})
            r = [Resonance(g, e, None, free), Resonance(g, e, recoil_correction=free)][k % 2]
            later = Resonance(g, e)
            info = dict(amu=amu, levels=[E0, E2])
            events.append(Event([1, E2 - E0, amu, r.resonance_energy], info))
            events.append(Event([2, E2 - E0, later.resonance_energy], info))
            if k % 5 == 0:
                events.append(Event([2, E2 - E0, Resonance(g, e, recoil_correction=NoRecoil()).resonance_energy], info))

    # states
    for k in range(ctx.pick(500, 5000)):
        J, P, E = int(rng.integers(0, 21 if k % 10 else 101)), int(rng.choice([-1, 1])), [float(rng.uniform(0, 20)), int(rng.integers(0, 5)), 0.0][min(2, int(rng.integers(8)) // 3)]
        name = ["x%d" % k, k, "5/2^+_%d" % k][k % 3]
        widths = [float(10 ** rng.uniform(-9, 0)) if rng.random() < 0.8 else int(rng.integers(0, 3)) for _ in range(int(rng.integers(0, 7) if k % 20 else rng.integers(7, 60)))]
        targets = {("t%d" % i if k % 2 else i): w for i, w in enumerate(widths)}
        info = dict(J_pi=name, two_J=J, parity=P, energy=E, widths=widths)
        with guard(ctx, info):
            g, s = GroundState(name, J, P), State(name, J, P, E, dict(targets))
            events.append(kept([label(name), J, P, 0.0], [label(g.J_pi), g.two_J, g.parity, g.excitation_energy], info))
            events.append(kept([label(name), J, P, E], [label(s.J_pi), s.two_J, s.parity, s.excitation_energy], info))
            seen = s.partial_widths
            events.append(kept([digest(str(t)) for t in targets] + widths, [digest(str(t)) for t in targets if t in seen] + [seen.get(t) for t in targets], info))
            events.append(Event([4, len(widths)] + widths + [s.width], info))
            if widths:
                events.append(Event([3, 1, len(widths), len(seen)], info))

    # isotopes and elements
    for k in range(ctx.pick(500, 5000)):
        n = int(rng.integers(1, 8)) if k % 20 else int(rng.integers(8, 60))
        amus = [float(rng.uniform(1, 250)) if rng.random() < 0.8 else int(rng.integers(1, 250)) for _ in range(n)]
        ab = rng.dirichlet(np.ones(n)).tolist() if rng.random() < 0.6 else [float(v) for v in rng.uniform(0, 1, n)]
        if rng.random() < 0.3:
            ab[int(rng.integers(n))] = 0.0
        if rng.random() < 0.2:
            amus = [amus[0]] * n
        density = None if rng.random() < 0.3 else float(rng.uniform(0, 20)) if rng.random() < 0.7 else [0.0, 0, 1][int(rng.integers(3))]
        info = dict(masses=amus, abundances=ab, density=density)
        with guard(ctx, info):
            gs = GroundState("gs", 1, 1)
            levels = [level(int(i)) for i in rng.permutation(80)[: int(rng.integers(1, 5) if rng.random() < 0.95 else rng.integers(5, 60))]]
            given = numbers(levels)
            container = [levels, {s.J_pi: s for s in levels}, tuple(levels)][k % 3]
            isos = []
            for i, m in enumerate(amus):
                how = (k + i) % 4
                if how == 0:
                    isos.append(Isotope("%dQ" % i, m))
                elif how == 1:
                    isos.append(Isotope("%dQ" % i, m, gs))
                elif how == 2:
                    isos.append(Isotope("%dQ" % i, m, gs, container))
                else:
                    isos.append(Isotope(AX="%dQ" % i, amu=m, excited_states=container, ground_state=gs))
            for i, iso in enumerate(isos):
                how = (k + i) % 4
                inside = iso.excited_states
                inside = list(inside.values()) if isinstance(inside, dict) else list(inside)
                events.append(kept([digest("%dQ" % i), amus[i]], [label(iso.AX), iso.amu], info))
                seen = [iso.ground_state is (gs if how else None), len(inside) > 0]
                events.append(kept([1, int(how > 1), len(levels) if how > 1 else 0], [int(seen[0]), int(seen[1]), len(inside)], dict(info, isotope=i)))
                if how > 1:
                    events.append(kept(given, numbers(inside), dict(info, isotope=i)))
            events.append(kept(given, numbers(levels), dict(info, call="list of the caller")))
            order = [int(i) for i in rng.permutation(n)]
            # isotopes and abundances belong together by their keys, which need not be the names of the isotopes
            keys = [i.AX for i in isos]
            if rng.random() < 0.3:
                keys = [[keys[-1 - i] for i in range(n)], list(range(100, 100 + n)), ["%d " % i for i in range(n)]][int(rng.integers(3))]
            abundances = {keys[i]: ab[i] for i in order}
            if rng.random() < 0.3:
                # more abundances than isotopes are permitted
                abundances["other"] = 0.5
            isotopes = dict(zip(keys, isos))
            e = Element(k, "Q%d" % k, isotopes, abundances, density) if k % 2 or density is not None else Element(k, "Q%d" % k, isotopes, abundances)
            pairs = [v for i in range(n) for v in (amus[i], ab[i])]
            events.append(Event([5, n] + pairs + [e.amu], info))
            events.append(Event([5, n] + pairs + [Element.amu_from_isotopic_composition(abundances, isotopes)], info))
            events.append(kept([k, digest("Q%d" % k), density], [e.Z, label(e.X), e.density], info))
            events.append(kept(ab, [e.abundances[i] for i in keys], info))
            events.append(kept(amus, [e.isotopes[i].amu for i in keys], info))
    canaries = []
    for kind, f in [(1, lambda v: v * (1 + 1e-12)), (2, lambda v: v * (1 + 1e-12)), (3, lambda v: 1 if v is None else v + 1), (4, lambda v: v * (1 + 1e-9)), (5, lambda v: v * (1 + 1e-9))]:
        for e in [e for e in events if e.fields[0] == kind and e.fields[-1] != 0 and isinstance(e.fields[-1], (int, float))][:8]:
            canaries.append([e.corrupted(len(e.fields) - 1, f(e.fields[-1]))])
    ctx.judge("nuclides_trace", groups_of(events, 50), canaries=canaries)
