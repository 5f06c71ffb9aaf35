"""C08: cumulative and quantile functions of (pseudo-)Voigt shapes are inverses."""

from harness.resonances import *


def quantile(rng, cls):
    return float(
        {
            0: lambda: 0.0,
            1: lambda: 10 ** rng.uniform(-12, -2.5),
            2: lambda: rng.uniform(0.003, 0.49),
            3: lambda: 0.5,
            4: lambda: rng.uniform(0.51, 0.997),
            5: lambda: 1 - 10 ** rng.uniform(-12, -2.5),
            6: lambda: 1.0,
        }[cls]()
    )


def distribution(rng, E, width, amu, T):
    r = rng.integers(4)
    if r == 0:
        return PseudoVoigtDistribution(E, width, amu, T)
    if r == 1:
        return SemiPseudoVoigtDistribution(E, width, amu, T)
    return simple_resonance("pseudo_voigt" if r == 2 else "voigt", E, width, amu, T).probability_distribution


def quantile_events(ctx, rng, qs, E, width, amu, T, events):
    info = dict(E=E, width=width, amu=amu, T=T, quantiles=qs)
    with guard(ctx, info):
        d = distribution(rng, E, width, amu, T)
        info["class"] = type(d).__name__
        arrays = len(qs) > 1 or rng.random() < 0.3
        if arrays:
            arg = np.array(qs) if rng.random() < 0.9 else list(qs)
            got = Caught(lambda: d.ppf(arg))
            xs = flat(got.result)
            if len(xs) != len(qs):
                ctx.violation("quantile function returns a wrong number of values", dict(info, result=xs))
                return
            single = [Caught(lambda: d.ppf(np.array([q]))) for q in qs]
            for i, q in enumerate(qs):
                alone = bool(single[i].messages)
                events.append(
                    Event(
                        [8, E, width, amu, T, int(bool(got.messages) and alone), q, xs[i], int(alone and not got.messages)],
                        dict(info, q=q, x=xs[i], warned=got.messages, warned_alone=alone, array=True),
                    )
                )
        else:
            q = qs[0]
            arg = int(q) if q in (0.0, 1.0) and rng.random() < 0.5 else (np.float64(q) if rng.random() < 0.3 else q)
            got = Caught(lambda: d.ppf(arg))
            x = got.result
            x = flat(x)[0] if np.size(x) == 1 else None
            events.append(
                Event([8, E, width, amu, T, int(bool(got.messages)), q, x, 0], dict(info, x=x, warned=got.messages))
            )


def check(ctx):
    rng = ctx.rng(8)
    events = []
    # every array of probability classes that the model can build, for several line shapes
    for s in ctx.tlc(ctx.pick("config_mcq", "config_mct")):
        st = parse_tla(s)
        if st["c"]["what"] != 4:
            continue
        for regime in range(6) if not ctx.quick else rng.choice(6, 2, replace=False):
            qs = [quantile(rng, c) for c in st["qs"]]
            quantile_events(ctx, rng, qs, *regime_params(rng, int(regime)), events)
    for k in range(ctx.pick(60, 600)):
        n = int(rng.integers(4, 40))
        qs = [quantile(rng, int(rng.choice(7, p=[0.05, 0.1, 0.3, 0.1, 0.3, 0.1, 0.05]))) for _ in range(n)]
        quantile_events(ctx, rng, qs, *regime_params(rng, int(rng.integers(6))), events)
    quantiles = list(events)
    # cumulative distribution and density
    for k in range(ctx.pick(150, 1500)):
        E, width, amu, T = regime_params(rng, int(rng.integers(6)))
        cw = core_width("voigt", E, width, amu, T)
        xs = [E, -math.inf, math.inf, 0.0] + [float(v) for v in E + cw * np.sinh(rng.uniform(-14, 14, 8))]
        xs.sort()
        info = dict(E=E, width=width, amu=amu, T=T)
        with guard(ctx, info):
            d = distribution(rng, E, width, amu, T)
            ps = flat(d.cdf(np.array(xs))) if k % 2 else [flat(d.cdf(x))[0] for x in xs]
            if len(ps) != len(xs):
                ctx.violation("cumulative distribution returns a wrong number of values", dict(info, result=ps))
                continue
            for x, p in zip(xs, ps):
                events.append(Event([6, E, width, amu, T, x, p], dict(info, energy=x, cdf=p)))
            events.append(Event([9, len(ps)] + ps + [4e-16], dict(info, energies=xs, cdf=ps)))
            if type(d) is PseudoVoigtDistribution:
                for x in xs[2:8]:
                    if not math.isinf(x):
                        events.append(Event([7, E, width, amu, T, x, flat(d.pdf(x))[0]], dict(info, energy=x)))
    canaries = []
    for e in quantiles:
        if e.fields[5] == 0 and 0.01 < e.fields[6] < 0.99 and e.fields[6] != 0.5 and len(canaries) < 40:
            canaries.append([e.corrupted(6, e.fields[6] + 1e-4)])
            canaries.append([e.corrupted(7, None)])
            canaries.append([e.corrupted(8, 1)])
    for e in events:
        if e.fields[0] == 6 and len(canaries) < 70:
            canaries.append([e.corrupted(6, e.fields[6] + 1e-7)])
    ctx.judge("resonance_trace", groups_of(events, 20), canaries=canaries)
    ctx.note("warned_quantiles", sum(e.fields[5] for e in quantiles))
