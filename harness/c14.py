"""C14: partitioned integration does not depend on the partition."""

import math

import numpy as np

from harness.core import Event, flat, groups_of, guard, parse_tla
from ries.integration.quad_partition import quad_partition


def pair(result):
    r = [flat(v) for v in result] if isinstance(result, (tuple, list, np.ndarray)) and len(result) == 2 else [[None], [None]]
    return [v[0] if len(v) == 1 else None for v in r]


def container(k, values):
    return [list, tuple, np.array][k % 3](values)


def limits_container(k, values):
    return [
        lambda v: [list(p) for p in v],
        lambda v: tuple(tuple(p) for p in v),
        lambda v: np.array(v),
        lambda v: [tuple(p) for p in v],
    ][k % 4](values)


def polynomial(terms, dim):
    if dim == 1:
        return lambda x: sum(c * x ** p[0] for c, p in terms)
    if dim == 2:
        return lambda x, y: sum(c * x ** p[0] * y ** p[1] for c, p in terms)
    if dim == 3:
        return lambda x, y, z: sum(c * x ** p[0] * y ** p[1] * z ** p[2] for c, p in terms)
    return lambda *x: sum(c * math.prod(v ** q for v, q in zip(x, p)) for c, p in terms)


def check(ctx):
    rng = ctx.rng(14)
    # model -> code
    for i, s in enumerate(ctx.tlc(ctx.pick("partition_mcq", "partition_mct"))):
        st = parse_tla(s)
        p, q, y = st["p"], st["q"], st["y"]
        one = y["a"] == y["b"]
        norm = (p + 1) * (1 if one else q + 1)
        with guard(ctx, {"model state": st}):
            x0 = container(i, [float(v) for v in st["x0"]])
            if one:
                f = lambda x: x**p
                got = pair(quad_partition(f, x0) if i % 2 else quad_partition(f, x0, [] if i % 4 else None))
            else:
                f = lambda x, v: x**p * v**q
                got = pair(quad_partition(f, x0, limits_container(i, [(float(y["a"]), float(y["b"]))])))
            ctx.traces += 1
            want = st["total"] / norm
            if got[0] is None or not abs(got[0] - want) <= 1e-9 * (1 + abs(want) + max(abs(v) for v in st["parts"])):
                ctx.violation("integral differs from the model", {"state": st, "model": want, "library": got})
            if i % 300 == 5:
                ctx.samples.append({"state": st, "integral": got})

    # code -> model
    events = []
    for k in range(ctx.pick(500, 5000)):
        dim = [1, 1, 2, 2, 2, 3][k % 6] if ctx.quick or k % 12 else 3
        nt = int(rng.integers(1, 4))
        if k % 250 == 99:
            dim, nt = 4, 1
        top = {1: 7, 2: 4, 3: 3, 4: 3}[dim]
        unit = 1.0 if rng.random() < 0.8 else float(10.0 ** rng.integers(-20, 13))
        terms = [(unit * float(rng.uniform(-3, 3)), [int(v) for v in rng.integers(0, top, dim)]) for _ in range(nt)]
        n = int(rng.integers(2, {1: 9, 2: 5, 3: 3, 4: 2}[dim] + 1))
        if rng.random() < 0.3:
            x0 = np.sort(rng.integers(-6, 7, n)).astype(float)
        else:
            x0 = np.sort(rng.uniform(-3, 4, n))
        if np.any(np.diff(x0) <= 0):
            x0 = np.arange(n) * 0.75 - 1
        long = k % 25 == 1 and dim == 1
        if long:
            n = int(rng.integers(20, 400))
            x0 = np.linspace(-1.5, 2.0, n) + rng.uniform(0, 0.002, n)
        if n > 2 and rng.random() < 0.1:
            # an empty interval
            x0[1] = x0[0]
        if rng.random() < 0.1:
            x0 = x0[::-1]
        whole = bool(np.all(x0 == np.round(x0))) and rng.random() < 0.5
        if dim == 1 and k % 4 == 0 and not long:
            # vanishes at all points of the partition
            n = min(n, 5)
            x0 = np.sort(rng.permutation(9)[:n] - 4).astype(float)
            scale = int(rng.integers(1, 4)) * (1 if rng.random() < 0.5 else -1)
            terms = [(float(scale * c), [n - i]) for i, c in enumerate(np.poly(x0).round())]
            nt = len(terms)
        lims = []
        for _ in range(dim - 1):
            a = float(rng.uniform(-2, 2))
            lims.append((a, a + float(rng.uniform(0.1, 3)) * (1 if rng.random() < 0.9 else -1)))
        f = polynomial(terms, dim)
        info = dict(terms=terms, x0=x0.tolist(), limits=lims)
        with guard(ctx, info):
            arg = container(k, [int(v) for v in x0] if whole else x0.tolist())
            larg = limits_container(k // 3, lims) if dim > 1 else None
            before = flat(arg) + (flat(larg) if dim > 1 else [])
            if dim == 1:
                got = pair([lambda: quad_partition(f, arg), lambda: quad_partition(f, arg, []), lambda: quad_partition(f, arg, None)][k % 3]())
            else:
                got = pair(quad_partition(f, arg, larg))
            info["result"] = got
            coded = []
            for c, p in terms:
                coded += [c] + p
            box = [float(x0[0]), float(x0[-1])] + [v for l in lims for v in l]
            events.append(Event([5, dim, nt] + coded + box + [got[0]], info))
            after = flat(arg) + (flat(larg) if dim > 1 else [])
            events.append(Event([4, len(before)] + before + after, dict(info, call="arguments")))
            if (dim < 3 or k % 4 == 0) and n < 60:
                parts = []
                for i in range(n - 1):
                    parts += pair(quad_partition(f, [float(x0[i]), float(x0[i + 1])], [list(l) for l in lims]))
                events.append(Event([6, n - 1] + parts + got, dict(info, parts=parts)))
    # functions that jump at the points of the partition
    for k in range(ctx.pick(150, 1500)):
        n = int(rng.integers(1, 9))
        x0 = np.sort(rng.integers(-8, 9, n + 1) / 4.0) if k % 2 else np.sort(rng.uniform(-3, 4, n + 1))
        values = [float(v) for v in rng.choice([-2.0, 0.0, 1.0, 3.0, 1e-9, 1e6], n)]
        if k % 5 == 0:
            values = [float(v) for v in rng.normal(0, 1, n)]
        info = dict(points=x0.tolist(), values=values)
        with guard(ctx, info):
            f = lambda x: values[min(n - 1, max(0, int(np.searchsorted(x0, x, side="right")) - 1))]
            got = pair(quad_partition(f, container(k, x0.tolist())))
            events.append(Event([9, n] + x0.tolist() + values + [got[0]], dict(info, result=got)))
    # infinite ranges of the first coordinate
    for k in range(ctx.pick(80, 800)):
        power = int(rng.integers(1, 4))
        a = float(10 ** rng.uniform(-0.5, 1))
        x0 = [a] + sorted(float(a + v) for v in 10 ** rng.uniform(-1, 2, int(rng.integers(0, 4)))) + [math.inf]
        sign = 1
        if k % 3 == 1:
            x0 = [-v for v in x0[::-1]]
        if k % 4 == 1:
            x0, sign = x0[::-1], -1
        info = dict(function="%d / |x|^%d" % (power, power + 1), x0=x0)
        with guard(ctx, info):
            got = pair(quad_partition(lambda x: power / abs(x) ** (power + 1), container(k, x0)))
            events.append(Event([10, power, a, sign, got[0]], dict(info, result=got)))
    # functions with a peak in one of the other coordinates
    for k in range(ctx.pick(40, 300)):
        p = int(rng.integers(0, 4))
        x0 = sorted(float(v) for v in rng.uniform(-2, 3, int(rng.integers(2, 5))))
        lims = []
        for _ in range(1 if k % 8 else 2):
            low = float(rng.uniform(-2, 0))
            lims.append([low, low + float(rng.uniform(0.5, 3))])
        j = int(rng.integers(len(lims)))
        c = lims[j][0] + (lims[j][1] - lims[j][0]) * float(rng.uniform(0.2, 0.8))
        g = (lims[j][1] - lims[j][0]) * float(10 ** rng.uniform(-2, -1))
        info = dict(function="x^%d times a peak in coordinate %d" % (p, j + 1), peak=c, gamma=g, x0=x0, limits=lims)
        with guard(ctx, info):
            got = pair(quad_partition(lambda x, *y: x**p * g / (g * g + (y[j] - c) ** 2), container(k, x0), limits_container(k, lims)))
            other = math.prod(l[1] - l[0] for i, l in enumerate(lims) if i != j)
            events.append(Event([11, p, c, g, x0[0], x0[-1]] + lims[j] + [other, got[0]], dict(info, result=got)))
    # narrow peaks that need the partition
    for k in range(ctx.pick(150, 1500)):
        c = float(rng.uniform(-1, 6))
        g = float(10 ** rng.uniform(-7, -1))
        a, b = c - float(rng.uniform(0.1, 5)), c + float(rng.uniform(0.1, 5))
        widths = [v for v in [1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1] if v > 0.3 * g and v < min(c - a, b - c)]
        x0 = sorted([a, b, c] + [c + s * w for w in widths for s in (1, -1)])
        if g < 1e-5:
            x0 = sorted(x0 + [c - 10 * g, c + 10 * g])
        info = dict(peak=c, gamma=g, x0=x0)
        with guard(ctx, info):
            got = pair(quad_partition(lambda x: g / math.pi / (g * g + (x - c) ** 2), container(k, x0)))
            parts = []
            for i in range(len(x0) - 1):
                parts += pair(quad_partition(lambda x: g / math.pi / (g * g + (x - c) ** 2), x0[i : i + 2]))
            events.append(Event([7, c, g, a, b, got[0]], dict(info, result=got)))
            events.append(Event([6, len(x0) - 1] + parts + got, dict(info, parts=parts, result=got)))
    canaries = []
    for e in [e for e in events if e.fields[0] == 5][:15]:
        big = max(abs(f) for f in e.fields if isinstance(f, float))
        canaries.append([e.corrupted(len(e.fields) - 1, e.fields[-1] + 1e-3 * (big + abs(e.fields[-1])))])
    for e in [e for e in events if e.fields[0] == 6 and e.fields[1] > 1 and e.fields[-1] > 1e-12][:15]:
        canaries.append([e.corrupted(len(e.fields) - 1, e.fields[-1] * 1.0001)])
        canaries.append([e.corrupted(len(e.fields) - 2, e.fields[-2] + 1e-3 * max(abs(f) for f in e.fields[2:]))])
    for e in [e for e in events if e.fields[0] in (9, 10) and e.fields[-1]][::15]:
        large = max(abs(f) for f in e.fields[1:])
        canaries.append([e.corrupted(len(e.fields) - 1, e.fields[-1] + 1e-3 * large)])
    for e in [e for e in events if e.fields[0] == 11][:8]:
        canaries.append([e.corrupted(9, e.fields[9] + 1e-3)])
    for e in [e for e in events if e.fields[0] == 7][:10]:
        canaries.append([e.corrupted(5, e.fields[5] * 1.0001)])
    ctx.judge("integration_trace", groups_of(events, 20), canaries=canaries)
