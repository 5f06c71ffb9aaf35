"""C11: attenuation data are read, converted and interpolated log-log for each element."""

import os
import warnings

import numpy as np
from scipy.constants import physical_constants

from harness.core import Event, MachineryError, flat, guard, parse_tla
from harness.symbols import SYMBOLS
from harness.texts import line_fields, lines_of, reference_masses

with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    from ries.nonresonant.xrmac import XRMAC, xrmac_cm2_per_g, xrmac_fm2_per_atom


def one(x):
    x = flat(x)
    return x[0] if len(x) == 1 else None


def content(x):
    d = np.asarray(x.data)
    if d.ndim != 2:
        return [3, -1, 0]
    return [3, d.shape[0], d.shape[1]] + flat(d)


def queries(ctx, rng, x, energies, info, group, full=False):
    """Evaluate at, between and beyond the (converted) energies of a table."""
    es = sorted(set(energies))
    edges = sorted({a for a, b in zip(sorted(energies), sorted(energies)[1:]) if a == b})
    nodes = es if full else [float(v) for v in rng.choice(es, min(6, len(es)), replace=False)]
    between = []
    for _ in range(len(es) if full else 6):
        i = int(rng.integers(len(es) - 1))
        t = rng.random()
        between.append(float(es[i] ** (1 - t) * es[i + 1] ** t))
    for e in edges[: 20 if full else 2]:
        i = es.index(e)
        between += [float(e * (1 - 1e-6)), float(e * (1 + 1e-6))]
        nodes.append(e)
    beyond = [es[0] * 10 ** -rng.uniform(0.01, 5), es[-1] * 10 ** rng.uniform(0.01, 5), es[0], es[-1]]
    for e in nodes + between + beyond:
        v = one(x(e))
        group.append(Event([4, e, v], dict(info, energy=e, value=v)))
    some = np.array(between[:3] + nodes[:2] + beyond[:1])
    if rng.random() < 0.5:
        some = some.reshape(2, 3)
    got = flat(x(some))
    single = [one(x(float(e))) for e in some.ravel()]
    group.append(Event([5, len(single)] + got + single, dict(info, energies=some.tolist(), array=got, single=single)))


def number(rng, mantissa, lo, hi):
    """Number with the given count of decimals as written in the tables, and its value."""
    text = "%.*E" % (mantissa, 10 ** rng.uniform(lo, hi))
    return text, float(text)


def generated(rng, n):
    """Lines of a file in one of the documented layouts with n entries, and the columns."""
    labels = rng.random() < 0.5
    es = sorted(number(rng, 5, -3, 1.5)[1] for _ in range(n))
    es = sorted({float("%.5E" % e) for e in es})
    lines, rows = [], []
    for i, e in enumerate(es):
        for k in range(2 if labels and i and rng.random() < 0.15 else 1):
            label = "   "
            if k == 1:
                label = str(rng.choice(["K  ", "L1 ", "L2 ", "L3 ", "M1 ", "M5 ", "N3 "]))
            m, mv = number(rng, 3, -3, 4)
            a, av = number(rng, 3, -3, 4)
            lines.append((label if labels else "") + "%.5E  %s  %s" % (e, m, a))
            rows.append((e, mv, av))
    return lines, rows


def conversion(rng):
    """(power, factor, function); the function works for numbers and arrays."""
    r = rng.random()
    if r < 0.25:
        return 1, 1.0, None
    f = float(10 ** rng.uniform(-6, 6)) if r < 0.8 else 1e26
    if rng.random() < 0.2:
        return 2, f, lambda x: f * x * x
    return 1, f, lambda x: f * x


def check(ctx):
    rng = ctx.rng(11)
    # model -> code: tables of powers of two
    for i, s in enumerate(ctx.tlc(ctx.pick("xrmac_mcq", "xrmac_mct"))):
        st = parse_tla(s)
        if st["q"] == -100:
            continue
        with guard(ctx, {"model state": st}):
            data = np.array([[2.0 ** r["e"], 2.0 ** r["m"]] for r in st["rows"]])
            x = XRMAC(data)
            got = one(x(2.0 ** (st["q"] / 2)))
            ctx.traces += 1
            want = [2.0 ** (r["num"] / r["den"]) for r in st["results"]]
            if got is None or not any(abs(got - w) <= 1e-9 * w for w in want):
                ctx.violation("interpolation differs from the model", {"rows": st["rows"], "query": st["q"], "model": want, "library": got})
            if i % 4000 == 7:
                ctx.samples.append({"model": st["rows"], "query": st["q"], "value": got})

    groups = []
    masses = reference_masses()
    unit = physical_constants["atomic mass constant"][0]
    if not abs(unit / 1.6605390e-27 - 1) < 1e-6:
        raise MachineryError("unexpected atomic mass constant")
    # the tables of all elements
    for z in range(1, 93):
        lines = [l for l in lines_of("xrmac/%02d.txt" % z) if l]
        x = SYMBOLS[z]
        factors = [(xrmac_cm2_per_g, "per gram", 1.0)]
        if masses[z]:
            factors.append((xrmac_fm2_per_atom, "per atom", float(masses[z]) * unit * 1e29))
        for table, name, factor in factors:
            info = dict(table=name, element=x)
            group = [Event([0, 1, 1.0, 1, factor], info)]
            for l in lines:
                group.append(Event([1] + line_fields(l.rstrip()), dict(info, line=l)))
            with guard(ctx, info):
                m = table[x]
                group.append(Event(content(m), dict(info, call="data")))
                es = [float(l.split()[-3]) for l in lines]
                queries(ctx, rng, m, es, info, group, full=not ctx.quick)
                groups.append(group)
    # generated files and arrays
    path = os.path.join(ctx.scratch, "table.txt")
    for k in range(ctx.pick(120, 1500)):
        n = int(rng.integers(2, 6)) if k % 2 else int(rng.integers(2, 40)) if k % 40 else int(rng.integers(200, 800))
        lines, rows = generated(rng, n)
        if len({r[0] for r in rows}) < 2:
            continue
        pe, fe, ce = conversion(rng)
        pm, fm, cm = conversion(rng)
        info = dict(lines=lines[:4], rows=len(lines), energy_conversion=[pe, fe], xrmac_conversion=[pm, fm])
        kwargs = {}
        if ce is not None:
            kwargs["energy_conversion"] = ce
        if cm is not None:
            kwargs["xrmac_conversion"] = cm
        group = [Event([0, pe, fe, pm, fm], info)]
        with guard(ctx, info):
            if k % 3:
                with open(path, "w") as f:
                    f.write(" \n".join(lines) + (" \n" if rng.random() < 0.8 else " "))
                m = XRMAC(path, **kwargs)
                info["source"] = "file"
                for l in lines:
                    group.append(Event([1] + line_fields(l), dict(info, line=l)))
            else:
                w = int(rng.integers(2, 4))
                data = np.array([r[:w] for r in rows])
                keep = data.copy()
                m = XRMAC(data, **kwargs)
                info["source"] = "array"
                for r in rows:
                    group.append(Event([2] + list(r[:w]), info))
                if not np.array_equal(data, keep):
                    ctx.violation("array of attenuation data was modified", info)
            group.append(Event(content(m), dict(info, call="data")))
            es = [fe * r[0] ** pe for r in rows]
            queries(ctx, rng, m, es, info, group)
            groups.append(group)
    canaries = []
    for g in groups[:: max(1, len(groups) // 20)]:
        for kind in (3, 4, 5):
            i = [j for j, e in enumerate(g) if e.fields[0] == kind]
            if i:
                e = g[i[-1] if kind != 4 else i[3]]
                f = {3: 4, 4: 2, 5: 2}[kind]
                if e.fields[f] is not None:
                    head = [v for v in g[: i[0]] if v.fields[0] in (0, 1, 2)]
                    canaries.append(head + [e.corrupted(f, e.fields[f] * (1 + (1e-3 if kind == 4 else 1e-6)))])
    ctx.judge("xrmac_trace", groups, stateful=True, canaries=canaries)
