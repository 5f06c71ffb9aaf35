"""C04: equal-probability grids of resonances cut the line shape into equal shares."""

from harness.resonances import *


def window(rng, kind, E, width, amu, T):
    """Increasing limits around, beside or far away from the resonance."""
    cw = core_width(kind, E, width, amu, T)
    r = rng.random()
    if r < 0.3:
        a, b = -rng.uniform(0, 8), rng.uniform(0, 8)
    elif r < 0.5:
        a, b = sorted(rng.uniform(-6, 6, 2))
    elif r < 0.65:
        a, b = -(10 ** rng.uniform(0, 5)), 10 ** rng.uniform(0, 5)
    elif r < 0.8:
        a = 10 ** rng.uniform(0, 3)
        a, b = a, a * (1 + 10 ** rng.uniform(-3, 2))
        if rng.random() < 0.5:
            a, b = -b, -a
    elif r < 0.9:
        # far away on the scale of the resonance energy
        f = rng.choice([0.001, 0.5, 2.0, 10.0, 1000.0])
        return float(E * f), float(E * f * (1 + rng.uniform(0.1, 1)))
    else:
        # limits at the resonance energy, or very close to each other
        a, b = (0.0, rng.uniform(1e-3, 3)) if rng.random() < 0.5 else (-rng.uniform(1e-3, 3), 0.0)
    a, b = float(E + a * cw), float(E + b * cw)
    if not a < b:
        b = a + abs(a) * 1e-9 + cw
    return a, b


def check(ctx):
    rng = ctx.rng(4)
    # model -> code: box-shaped resonances, compared with the model state
    n = 0
    for s in ctx.tlc(ctx.pick("box_mcq", "box_mct")):
        st = parse_tla(s)
        q = st["q"]
        if q["kind"] != 0:
            continue
        n += 1
        e = q["er"] / 16
        with guard(ctx, {"model state": st}):
            r = simple_resonance("box", e, 1e-3, 10.0, 300.0)
            limits = (q["a"] / 16, q["b"] / 16)
            limits = [limits, list(limits), np.array(limits)][n % 3]
            got = flat(r.equidistant_probability_grid(limits, q["n"]))
            model = [v / 16 / (q["n"] - 1) for v in st["result"]]
            ctx.traces += 1
            lo, hi = max(limits[0], e - 0.5), min(limits[1], e + 0.5)
            if len(got) != q["n"] or got[0] != limits[0] or got[-1] != limits[1]:
                bad = True
            elif lo < hi:
                bad = any(not abs(g - m) <= 1e-12 * (1 + abs(m)) for g, m in zip(got, model))
            else:
                # no probability inside the limits: every order inside the limits is as good as the one of the model
                bad = any(not g <= h for g, h in zip(got, got[1:]))
            if bad:
                ctx.violation("grid of a box differs from the model state", {"query": q, "model": model, "library": got})
            if n % 60 == 1:
                ctx.samples.append({"query": q, "grid": got})

    # code -> model
    events = []
    for k in range(ctx.pick(1500, 9000)):
        kind = KINDS[k % 5]
        E, width, amu, T = regime_params(rng, int(rng.integers(6)))
        n = int(rng.integers(2, 12)) if rng.random() < 0.8 else int(rng.integers(12, 60))
        if k % 101 == 50:
            n = int(rng.integers(100, 400)) if k % 404 != 50 else int(rng.integers(1500, 3000))
        info = dict(kind=kind, E=E, width=width, amu=amu, T=T, n=n)
        coverage = k % 3 == 2
        if coverage:
            c = float(rng.choice([rng.random(), 0.0, 1e-6, 0.9, 0.999, 0.99999, 1 - 10 ** rng.uniform(-5, -1), 1.0]))
            arg = int(c) if c in (0.0, 1.0) and rng.random() < 0.5 else c
            a, b = c, 0
        else:
            a, b = window(rng, kind, E, width, amu, T)
            if rng.random() < 0.1:
                # whole energies, as integers
                a, b = math.floor(a), math.floor(b)
                b = max(b, a + 1)
            arg = [(a, b), [a, b], np.array([a, b])][int(rng.integers(3))]
        info["limits"] = [a, b] if not coverage else c
        with guard(ctx, info):
            r = simple_resonance(kind, E, width, amu, T)
            got = Caught(lambda: r.equidistant_probability_grid(arg, n))
            grid = flat(got.result)
            events.append(
                Event(
                    [10, KINDS.index(kind), E, width, amu, T, 1 if coverage else 0, a, b, n, len(grid)] + grid,
                    dict(info, warnings=got.messages, grid=grid[:20]),
                )
            )
    canaries = []
    for e in events[:: max(1, len(events) // 90)]:
        m = e.fields[10]
        if m >= 3 and e.fields[11 + m // 2] is not None:
            canaries.append([e.corrupted(11 + m // 2, float("nan"))])
            canaries.append([e.corrupted(10, m - 1)])
            if e.fields[6] == 1 and 0.5 < e.fields[7] < 0.99:
                canaries.append([e.corrupted(12, 0.7 * e.fields[12] + 0.3 * e.fields[13 if m > 2 else 11])])
        if e.fields[6] == 0:
            canaries.append([e.corrupted(11, e.fields[11] - 1e-6)])
    ctx.judge("resonance_trace", groups_of(events, 20), canaries=canaries)
