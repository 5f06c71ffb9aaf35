"""C07: resonance cross sections have the documented line shape at every energy."""

from fractions import Fraction

from harness.resonances import *


def scheme(rng, kind, E, width, amu, T, final, excited):
    """Resonance at exactly E with total width exactly as recorded. Returns (object, fields)."""
    E0 = 0.0 if not excited else dyadic(E * float(rng.uniform(0.1, 2.0)), 16)
    E2 = E0 + E
    twoJ0, twoJ2 = (int(v) for v in rng.integers(0, 9, 2))
    w = {"a": width} if final == 0 and rng.random() < 0.5 else {"a": 0.5 * width, "b": 0.375 * width, "c": 0.125 * width}
    init = GroundState("a", twoJ0, 1) if not excited else State("a", twoJ0, 1, E0, {"gs": 1e-9})
    e = State("e", twoJ2, 1, E2, w)
    fin = None
    if final == 1 and "b" in w:
        fin = GroundState("b", 4, 1)
    elif final == 2:
        fin = init
    r = make_resonance(kind, init, e, amu, T, fin)
    wf = None if fin is None else w[fin.J_pi]
    return r, [KINDS.index(kind), twoJ0, twoJ2, E0, E2, w["a"], wf, sum(w.values()), amu, T], E2 - E0


def distances(rng, region, cw, n):
    """Distances from the resonance energy in the given part of the line."""
    if region == 0:
        return [0.0] + [float(v) for v in rng.uniform(-0.3, 0.3, n - 1) * cw]
    lo, hi = {1: (0.3, 3), 2: (3, 30), 3: (30, 1e6), 4: (0.01, 1e3)}[region]
    d = cw * np.exp(rng.uniform(math.log(lo), math.log(hi), n))
    return [float(v) * (-1 if rng.random() < 0.5 else 1) for v in d]


def check(ctx):
    rng = ctx.rng(7)
    events = []
    approx = []
    for s in ctx.tlc(ctx.pick("config_mcq", "config_mct")):
        c = parse_tla(s)["c"]
        if c["what"] != 2:
            continue
        kind = KINDS[c["kind"]]
        # the more extreme widths are in the same class of the model in the quick tier
        regime = c["regime"] if c["regime"] > 2 or rng.random() < 0.7 else [5, 3, 4][c["regime"]]
        E, width, amu, T = regime_params(rng, regime)
        if kind == "box" or rng.random() < 0.1:
            T = float(rng.uniform(1, 3000))
        if kind in ("pseudo_voigt", "voigt") and regime in (3, 4) and rng.random() < 0.4:
            # one of the widths is negligible except in the wings
            width = float(sigma_of(E, amu, T) * 10 ** (rng.uniform(-11, -6) if regime == 3 else rng.uniform(5, 8)))
        info = dict(config=c, kind=kind, E=E, width=width, amu=amu, T=T)
        with guard(ctx, info):
            r, f, Er = scheme(rng, kind, E, width, amu, T, c["final"], c["excited"])
            n = [1, 1, 5, 6][c["form"]]
            pairs = []
            for d in distances(rng, c["region"], core_width(kind, Er, width, amu, T), n):
                x = Er + d
                d = x - Er
                if Fraction(x) - Fraction(Er) != Fraction(d):
                    x, d = Er, 0.0
                pairs.append((x, d))
            args = [p[1] if c["relative"] else p[0] for p in pairs]
            absolute = not c["relative"]
            if c["form"] in (0, 2) and rng.random() < 0.1:
                # whole numbers, as integers
                args = [int(round(a)) for a in args]
            style = rng.integers(3)

            def call(a):
                if absolute and style == 0:
                    return r(a)
                if style == 1:
                    return r(a, absolute)
                return r(a, input_is_absolute_energy=absolute)

            if c["form"] <= 1:
                a = args[0] if c["form"] == 0 else [np.float64, np.array][int(rng.integers(2))](args[0])
                vals = flat(call(a))
            else:
                a = np.array(args)
                if c["form"] == 3:
                    a = a.reshape([(2, 3), (6, 1), (1, 6), (3, 1, 2)][int(rng.integers(4))])
                if rng.random() < 0.3:
                    # every second element of a larger array
                    a = np.repeat(a, 2, axis=0)[::2]
                res = call(a)
                vals = flat(res)
                if np.shape(res) != a.shape:
                    vals = vals + [None]
                single = [flat(call(v))[0] for v in args]
                events.append(Event([4, len(args)] + vals + single, dict(info, energies=args, array=vals, single=single)))
            for k in range(min(len(vals), 1 if ctx.quick else 3)):
                events.append(
                    Event(
                        [3] + f + [c["relative"], args[k], vals[k]],
                        dict(info, scheme=f, energy=args[k], value=vals[k]),
                    )
                )
            if kind == "voigt" and c["form"] == 2:
                p = make_resonance("pseudo_voigt", r.initial_state, r.intermediate_state, amu, T, r.final_state)
                top = r(Er)
                for x, d in pairs[:3]:
                    approx.append(Event([5, p(x), r(x), top], dict(info, energy=x)))
    values = [e for e in events if e.fields[0] == 3]
    canaries = [[e.corrupted(13, e.fields[13] * (1 + 1e-5))] for e in values[:: max(1, len(values) // 40)] if e.fields[13] and e.fields[1] > 0 and e.fields[13] > 1e-20]
    ctx.judge("resonance_trace", groups_of(events + approx), canaries=canaries)
