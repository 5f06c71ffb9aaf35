"""C05: coverage intervals hold the requested central share and stay non-negative."""

from harness.resonances import *


def observe(r, arg):
    """Limits, numbers of the two kinds of warnings, stated maximum coverage in percent."""
    got = Caught(lambda: r.coverage_interval(arg))
    limits = flat(got.result)
    if len(limits) != 2:
        limits = [None, None]
    percent = None
    for m in got.messages:
        found = re.search(r"([0-9.]+) ?%", m)
        if found:
            percent = float(found.group(1))
    return limits, got.count("egative"), got.count("nfinite"), percent


def check(ctx):
    rng = ctx.rng(5)
    # model -> code: box-shaped resonances, compared with the model state
    for s in ctx.tlc(ctx.pick("box_mcq", "box_mct")):
        st = parse_tla(s)
        q = st["q"]
        if q["kind"] != 1:
            continue
        with guard(ctx, {"model state": st}):
            r = simple_resonance("box", q["er"] / 16, 1e-3, 10.0, 300.0)
            limits, negative, infinite, percent = observe(r, q["a"] / 4)
            model = [v / 16 for v in st["result"]]
            ctx.traces += 1
            if limits != model or negative != int(st["warned"]) or infinite:
                ctx.violation(
                    "coverage interval of a box differs from the model state",
                    {"query": q, "model": model, "warned": st["warned"], "library": limits, "warnings": [negative, infinite]},
                )
            grid = flat(Caught(lambda: r.equidistant_energy_grid(q["a"] / 4, 5)).result)
            if len(grid) != 5 or any(not abs(g - (model[0] + (model[1] - model[0]) * i / 4)) < 1e-12 for i, g in enumerate(grid)):
                ctx.violation("energy grid does not span the coverage interval of the model", {"query": q, "library": grid})
    # code -> model
    events = []
    for k in range(ctx.pick(1800, 18000)):
        kind = KINDS[k % 5]
        E, width, amu, T = regime_params(rng, int(rng.integers(6)))
        r = rng.random()
        if r < 0.45:
            # resonances that reach down to zero energy
            if kind == "box":
                E = dyadic(float(rng.uniform(0.01, 0.7)))
            else:
                E = dyadic(float(10 ** rng.uniform(-1, 1)))
                amu = float(10 ** rng.uniform(0, 1))
                T = float(10 ** rng.uniform(2, 12.5 if kind == "gauss" else 9))
                width = float(E * 10 ** rng.uniform(-3, 1.5))
        c = float(rng.choice([rng.random(), rng.random(), 0.0, 1e-9, 0.5, 0.95, 1 - 10 ** rng.uniform(-6, -1), 1.0]))
        info = dict(kind=kind, E=E, width=width, amu=amu, T=T, coverage=c)
        arg = int(c) if c in (0.0, 1.0) and rng.random() < 0.5 else (np.float64(c) if rng.random() < 0.2 else c)
        with guard(ctx, info):
            res = simple_resonance(kind, E, width, amu, T)
            limits, negative, infinite, percent = observe(res, arg)
            info.update(limits=limits, negative_warnings=negative, infinite_warnings=infinite, percent=percent)
            events.append(
                Event([11, KINDS.index(kind), E, width, amu, T, c] + limits + [negative, infinite, percent], info)
            )
            if k % 4 == 0 and None not in limits and not any(map(math.isinf, limits)):
                n = int(rng.integers(1, 30))
                grid = flat(Caught(lambda: res.equidistant_energy_grid(arg, n)).result)
                events.append(Event([12] + limits + [n, len(grid)] + grid, dict(info, n=n, grid=grid[:10])))
    canaries = []
    for e in events:
        f = e.fields
        if f[0] != 11 or len(canaries) >= 80:
            continue
        if f[9] == 1:
            canaries.append([e.corrupted(9, 0)])
            canaries.append([e.corrupted(7, -1e-3)])
        elif f[9] == 0 and 0.3 < f[6] < 0.99 and f[7] > 0:
            canaries.append([e.corrupted(9, 1)])
            canaries.append([e.corrupted(7, 0.5 * (f[7] + f[2]))])
    ctx.judge("resonance_trace", groups_of(events, 20), canaries=canaries)
    ctx.note("clamped_intervals", sum(1 for e in events if e.fields[0] == 11 and e.fields[9]))
    ctx.note("infinite_intervals", sum(1 for e in events if e.fields[0] == 11 and e.fields[10]))
