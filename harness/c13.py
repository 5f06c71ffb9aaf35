"""C13: Darboux sums bracket monotonic functions on any partition."""

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from ries.integration.darboux import darboux


def sums(result):
    r = [flat(v) for v in result] if isinstance(result, (tuple, list, np.ndarray)) and len(result) == 2 else [[None], [None]]
    return [v[0] if len(v) == 1 else None for v in r]


def grid(rng, n):
    kind = rng.integers(7)
    if kind == 0:
        x = np.linspace(rng.uniform(-5, 0), rng.uniform(0.1, 5), n)
    elif kind == 1:
        x = np.sort(rng.uniform(-10, 10, n))
    elif kind == 2:
        x = np.cumsum(10 ** rng.uniform(-3, 2, n)) - 50
    elif kind == 3:
        x = 1e6 + np.cumsum(rng.uniform(0.1, 1, n))
    elif kind == 4:
        x = np.cumsum(rng.integers(1, 5, n)) - 7
    else:
        # almost equidistant
        x = np.linspace(rng.uniform(-5, 0), rng.uniform(0.1, 5), n)
        step = 10 ** rng.uniform(-8, -0.5) * (x[1] - x[0])
        if kind == 5:
            x = x + step * rng.uniform(-0.5, 0.5, n)
        else:
            x[int(rng.integers(n))] += step
    if np.any(np.diff(x) <= 0):
        x = np.arange(n) * 0.5
    return x


def check(ctx):
    rng = ctx.rng(13)
    # model -> code
    for i, s in enumerate(ctx.tlc(ctx.pick("darboux_mcq", "darboux_mct"))):
        st = parse_tla(s)
        p = st["pts"]
        if len(p) < 2:
            continue
        steps = [(min(a["f"], b["f"]) * (b["x"] - a["x"]), max(a["f"], b["f"]) * (b["x"] - a["x"])) for a, b in zip(p, p[1:])]
        low, high = sum(v[0] for v in steps), sum(v[1] for v in steps)
        with guard(ctx, {"points": p}):
            dtype = [float, int, float][i % 3]
            x, f = np.array([q["x"] for q in p], dtype=dtype), np.array([q["f"] for q in p], dtype=dtype)
            form = i % 3
            got = sums(darboux(f if form == 0 else list(f) if form == 1 else (lambda t: f.copy()), x))
            ctx.traces += 1
            if got != [low, high - low]:
                ctx.violation("Darboux sums differ from the model", {"points": p, "model": [low, high - low], "library": got})
            if st["refined"] and got != [None, None] and not (got[0] >= st["old"]["lower"] and sum(got) <= st["old"]["upper"]):
                ctx.violation("refinement widens the bracket of the model", {"points": p, "before": st["old"], "after": got})
            if i % 1500 == 5:
                ctx.samples.append({"points": p, "sums": got})

    # code -> model
    events = []
    for k in range(ctx.pick(1500, 15000)):
        n = int(rng.integers(2, 8)) if k % 3 else int(rng.integers(2, 40))
        x = grid(rng, n)
        info = dict(x=x.tolist())
        mono = k % 2 == 0
        if mono:
            sign = rng.choice([-1, 1])
            top = float(np.max(np.abs(x)))
            c = [float(rng.uniform(-5, 5)) * rng.choice([1, 20]), float(sign * rng.uniform(0, 3)), float(sign * rng.uniform(0, 1)) if top < 300 else 0.0]
            if rng.random() < 0.1:
                c[1] = c[2] = 0.0
            fun = lambda t: c[0] + c[1] * t + c[2] * t**3
            f = np.asarray(fun(x), dtype=float)
            info["function"] = c
        else:
            f = [rng.normal(0, 3, n), rng.integers(-5, 6, n), rng.uniform(-1, 0, n) * 10 ** rng.uniform(-6, 6)][int(rng.integers(3))]
            if k % 5 == 1:
                # other units, and values of different orders of magnitude
                x = x * float(10 ** rng.uniform(-9, 6))
                f = f * (10 ** rng.uniform(-30, 20) if k % 10 == 1 else 10 ** rng.uniform(-12, 12, n))
                info["x"] = x.tolist()
            elif k % 5 == 3:
                # in order except for rounding errors
                f = np.sort(f.astype(float)) * (1 if rng.random() < 0.7 else -1)
                j = int(rng.integers(1, n))
                f[j] = f[j - 1] * (1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-15, -10))
        info["f"] = f.tolist()
        with guard(ctx, info):
            before_x, before_f = flat(x), flat(f)
            form = int(rng.integers(3))
            if mono and form == 0:
                got = sums(darboux(fun, x))
            else:
                got = sums(darboux(f if form else f.tolist(), x))
            info["result"] = got
            events.append(Event([1, n] + before_x + before_f + got, info))
            events.append(Event([4, 2 * n] + before_x + before_f + flat(x) + flat(f), dict(info, call="arguments")))
            if mono and None not in got:
                slack = 1e-11 * float(np.max(np.abs(f))) * (float(x[-1] - x[0]) + 1e-3 * float(np.max(np.abs(x)))) + 1e-13 * abs(c[2]) * float(np.max(np.abs(x))) ** 4
                slack += 1e-14 * float(np.max(np.abs(x))) ** 2 * (abs(c[0]) + abs(c[1]))
                events.append(Event([2] + c + [float(x[0]), float(x[-1]), slack] + got, info))
                fine = np.sort(np.concatenate([x.astype(float), rng.uniform(x[0], x[-1], int(rng.integers(1, 6)))]))
                fine = np.unique(fine)
                after = sums(darboux(fun, fine))
                events.append(Event([3, slack] + got + after, dict(info, refined=fine.tolist(), after=after)))
    # long grids, with values that increase or decrease by the same step
    for k in range(ctx.pick(30, 200)):
        n = int(10 ** rng.uniform(2, ctx.pick(5, 6)))
        h = 2.0 ** int(rng.integers(-12, 3))
        c, d = (int(v) for v in rng.integers(-9, 10, 2))
        c *= int(rng.choice([1, n]))
        info = dict(points=n, step=h, first=c, slope=d)
        with guard(ctx, info):
            x = (int(rng.integers(-9, 10)) + np.arange(n)) * h
            f = c + d * np.arange(n, dtype=[int, float][k % 2])
            got = sums(darboux(f, x) if k % 3 else darboux(lambda t: f, x))
            events.append(Event([8, n, h, c, d] + got, dict(info, result=got)))
    canaries = []
    for e in [e for e in events if e.fields[0] == 8 and e.fields[4]][:6]:
        canaries.append([e.corrupted(5, e.fields[5] - 2 * abs(e.fields[4]) * e.fields[2])])
        canaries.append([e.corrupted(6, e.fields[6] * 1.00001)])
    for kind, k in [(1, -1), (1, -2), (4, -1)]:
        for e in [e for e in events if e.fields[0] == kind and abs(e.fields[2]) < 100 and max(map(abs, e.fields)) < 1e4][:12]:
            j = len(e.fields) + k
            canaries.append([e.corrupted(j, e.fields[j] + 1e-4 * (1 + abs(e.fields[j])))])
    for e in [e for e in events if e.fields[0] == 2 and e.fields[8] > 1 + 10 * e.fields[6]][:8]:
        canaries.append([e.corrupted(7, e.fields[7] + 2 * e.fields[8])])
    ctx.judge("integration_trace", groups_of(events, 20), canaries=canaries)
