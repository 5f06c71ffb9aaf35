"""C10: Compton kinematics and cross sections follow the Klein-Nishina formula."""

import math

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from harness.lib import KleinNishina

M_E = 0.51099895
MASSES = [M_E, 105.6583755, 938.27208816, 1.0, 0.0625]
ALPHA, HBARC = 7.2973525693e-3, 197.3269804
COS = {0: 1.0, 1: 0.5, 2: 0.0, 3: -0.5, 4: -1.0}
THETA = {0: 0.0, 1: math.pi / 3, 2: math.pi / 2, 3: 2 * math.pi / 3, 4: math.pi}
PHI = {1: 0.0, 2: math.pi / 4, 3: math.pi / 2}


def one(x):
    x = flat(x)
    return x[0] if len(x) == 1 else None


def near(a, b, rel):
    return a is not None and abs(a - b) <= rel * abs(b)


def scattering(ctx, st, phase):
    """One transition of the model: the library sees the same scattering and must give the exact fractions."""
    mc2 = MASSES[st["mass"]]
    Z = [1, 3, 92, 0.5][phase % 4]
    E = mc2 * 2.0 / (st["w"] - st["s"])
    Ep = mc2 * 2.0 / st["w"]
    theta = THETA[st["s"]]
    k = KleinNishina(Z, mc2) if phase % 3 or st["mass"] else KleinNishina(Z=Z)
    r0 = Z * (ALPHA * HBARC / mc2) ** 2
    cs = 0.5 * r0 * st["cs"]["num"] / st["cs"]["den"]
    bad = []
    if not near(one(k.Ep_over_E(E, theta)) * E, Ep, 1e-7):
        bad.append("scattered energy")
    if not near(math.cos(one(k.theta(E, Ep))) + 2, COS[st["s"]] + 2, 1e-6):
        bad.append("scattering angle")
    if st["pol"]:
        got = one(k.cs_diff_dOmega(E, theta, PHI[st["pol"]] * (1 if phase % 2 else -1)))
        got_E = one(k.cs_diff_dEp_dphi(E, Ep, PHI[st["pol"]]))
    else:
        got = one(k.cs_diff_dOmega_unpolarized(E, theta))
        got_E = one(k.cs_diff_dEp(E, Ep)) / (2 * math.pi)
        if not abs(one(k.cs_diff_dtheta(E, theta)) - 2 * math.pi * math.sin(theta) * cs) <= 1e-6 * r0:
            bad.append("angle-differential cross section")
    if not abs(got - cs) <= 1e-6 * r0:
        bad.append("cross section")
    if not abs(got_E * Ep * Ep / mc2 - cs) <= 3e-6 * r0:
        bad.append("energy-differential cross section")
    edge = mc2 * 2.0 / (st["w"] - st["s"] + 4)
    if not near(one(k.compton_edge(E)), edge, 1e-7):
        bad.append("minimum scattered energy")
    for b in bad:
        ctx.violation("%s differs from the model" % b, {"transition": st, "Z": Z, "mc2": mc2, "E": E, "Ep": Ep, "model": cs, "library": got})


def check(ctx):
    rng = ctx.rng(10)
    states = ctx.tlc(ctx.pick("compton_mcq", "compton_mct"))
    if not ctx.quick:
        states = [states[i] for i in rng.permutation(len(states))[:20000]]
    for i, s in enumerate(states):
        st = parse_tla(s)
        if st["n"]:
            with guard(ctx, {"model state": st}):
                scattering(ctx, st, i)
                ctx.traces += 1
                if i % 1000 == 3:
                    ctx.samples.append({"model transition": st})

    events = []
    for i in range(ctx.pick(700, 9000)):
        default = rng.random() < 0.25
        mc2 = M_E if default else float(10 ** rng.uniform(-1, 5.4)) if rng.random() < 0.6 else float(rng.choice(MASSES))
        Z = [1, int(rng.integers(1, 119)), float(rng.uniform(0.1, 100))][int(rng.integers(3))]
        E = float(10 ** (rng.uniform(-3, 2) if rng.random() < 0.7 else rng.uniform(-6, 4))) if rng.random() < 0.9 else int(rng.integers(1, 20))
        if i % 12 == 5:
            # the largest and the smallest ratios of energy and rest energy
            small = i % 24 == 5
            E = float(10 ** (rng.uniform(-6, -4) if small else rng.uniform(3, 4)))
            if not default:
                mc2 = float(10 ** (rng.uniform(3, 5.4) if small else rng.uniform(-1.2, 0)))
        theta = float(rng.choice([rng.uniform(0, math.pi), rng.uniform(0, math.pi), 0.0, math.pi, math.pi / 2, 1e-4 * rng.random(), math.pi - 1e-4 * rng.random()]))
        phi = float(rng.choice([rng.uniform(-7, 7), rng.uniform(0, 6.2832), 0.0, math.pi / 2, math.pi]))
        edge = E / (1 + 2 * E / mc2)
        Ep = float(rng.choice([rng.uniform(edge, E), edge + (E - edge) * 10 ** rng.uniform(-6, 0), E - (E - edge) * 10 ** rng.uniform(-6, 0), E]))
        Ep = min(max(Ep, edge * (1 + 4e-16)), E)
        info = dict(Z=Z, mc2=None if default else mc2, E=E, theta=theta, phi=phi, Ep=Ep)
        head = [Z, None if default else mc2, E]
        with guard(ctx, info):
            if default:
                k = KleinNishina(Z) if Z != 1 or i % 2 else KleinNishina()
            else:
                k = KleinNishina(Z, mc2) if i % 2 else KleinNishina(Z=Z, mc2=mc2)

            def note(kind, name, args, value):
                events.append(Event([kind] + head + args + [value], dict(info, call=name, result=value)))

            note(1, "Ep_over_E", [theta], one(k.Ep_over_E(E, theta)))
            own_edge = one(k.compton_edge(E))
            note(2, "compton_edge", [], own_edge)
            note(3, "theta", [Ep], one(k.theta(E, Ep)))
            # exactly forward and backward, with the limits of the library itself
            if own_edge is not None and i % 3 == 0:
                note(3, "theta at the edge", [own_edge], one(k.theta(E, own_edge)))
                note(3, "theta without energy loss", [E], one(k.theta(E, E)))
                note(7, "cs_diff_dEp at the edge", [own_edge], one(k.cs_diff_dEp(E, own_edge)))
            note(4, "cs_diff_dOmega", [theta, phi], one(k.cs_diff_dOmega(E, theta, phi)))
            note(5, "cs_diff_dOmega_unpolarized", [theta], one(k.cs_diff_dOmega_unpolarized(E, theta)))
            note(6, "cs_diff_dEp_dphi", [Ep, phi], one(k.cs_diff_dEp_dphi(E, Ep, phi)))
            note(7, "cs_diff_dEp", [Ep], one(k.cs_diff_dEp(E, Ep)))
            note(8, "cs_diff_dtheta", [theta], one(k.cs_diff_dtheta(E, theta)))
            note(9, "cs_total", [], one(k.cs_total(E)))
            note(9, "__call__", [], one(k(E)))
            back = one(k.theta(E, Ep))
            if back is not None:
                note(11, "Ep_over_E of theta", [Ep], one(k.Ep_over_E(E, back)) * E)
            if i % 5 == 0:
                pol = [one(k.cs_diff_dOmega(E, theta, 2 * math.pi * j / 5 + 0.3)) for j in range(5)]
                note(12, "azimuthal average", [5] + pol, one(k.cs_diff_dOmega_unpolarized(E, theta)))
            if i % 10 == 0:
                n, L = 64, math.log(1 + 2 * E / mc2)
                ep = E * np.exp(-np.arange(n + 1) * L / n)
                ep[-1] = one(k.compton_edge(E))
                vals = flat(k.cs_diff_dEp(E, ep)) if i % 20 else [one(k.cs_diff_dEp(E, float(v))) for v in ep]
                if len(vals) == n + 1:
                    note(13, "integral over the scattered energy", [n] + vals, one(k.cs_total(E)))
                if E / mc2 < 2:
                    vals = flat(k.cs_diff_dtheta(E, np.linspace(0, math.pi, n + 1)))
                    if len(vals) == n + 1:
                        note(14, "integral over the angle", [n] + vals, one(k.cs_total(E)))
            if i % 4 == 0:
                es = np.array([E, 1.5 * E, 0.3 * E])
                ths = rng.uniform(0, 3.1, 3)
                phs = rng.uniform(0, 6, 3)
                eps = es / (1 + es / mc2 * (1 - np.cos(ths)))
                if i % 8 == 0:
                    es, ths, phs, eps = (v.reshape(3, 1) for v in (es, ths, phs, eps))
                for name, args in [
                    ("Ep_over_E", (es, ths)),
                    ("compton_edge", (es,)),
                    ("theta", (es, eps)),
                    ("cs_diff_dOmega", (es, ths, phs)),
                    ("cs_diff_dOmega_unpolarized", (es, ths)),
                    ("cs_diff_dEp_dphi", (es, eps, phs)),
                    ("cs_diff_dEp", (es, eps)),
                    ("cs_diff_dtheta", (es, ths)),
                    ("cs_total", (es,)),
                    ("__call__", (es,)),
                    ("cs_diff_dtheta", (E, ths)),
                    ("cs_diff_dOmega", (E, theta, phs)),
                    ("cs_diff_dOmega", (E, ths, phi)),
                ]:
                    f = getattr(k, name)
                    arr = flat(f(*args))
                    full = np.broadcast_arrays(*args)
                    single = [one(f(*(float(a.ravel()[j]) for a in full))) for j in range(full[0].size)]
                    events.append(
                        Event([10, 0, 0, 0, len(single)] + arr + single, dict(info, call="array " + name, args=[np.asarray(a).tolist() for a in args], array=arr, single=single))
                    )
    # light particles and very large energies
    for i in range(ctx.pick(40, 400)):
        Z, mc2 = int(rng.integers(1, 93)), float(10 ** rng.uniform(-4, 0))
        E = mc2 * float(10 ** rng.uniform(3, 8))
        theta = float(rng.choice([rng.uniform(0, math.pi), math.pi]))
        info = dict(Z=Z, mc2=mc2, E=E, theta=theta)
        with guard(ctx, info):
            k = KleinNishina(Z, mc2)
            for kind, name, args, value in [(1, "Ep_over_E", [theta], k.Ep_over_E(E, theta)), (2, "compton_edge", [], k.compton_edge(E)), (9, "cs_total", [], k.cs_total(E))]:
                events.append(Event([kind, Z, mc2, E] + args + [one(value)], dict(info, call=name, result=one(value))))
    canaries = []
    for kind in range(1, 15):
        if kind in (3, 10):
            continue
        for e in [e for e in events if e.fields[0] == kind and e.fields[-1] and (kind != 9 or e.fields[3] > 0.05 * (e.fields[2] or 1)) and (kind not in (4, 6, 8) or e.fields[4] > 0.5 and e.fields[-1] > 1e-3 * e.fields[1])][:5]:
            canaries.append([e.corrupted(len(e.fields) - 1, e.fields[-1] * (1.001 if kind != 13 and kind != 14 else 1.01))])
    ctx.judge("compton_trace", groups_of(events, 20), canaries=canaries)
