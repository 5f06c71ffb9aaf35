"""C03: equidistant grids, and grids of combinations."""

from harness.algebra import *
from harness.core import Event

LIMITS = [(0.0, 6.0), (0.5, 3.5), (2, 4), (1.25, 1.5), (1e-3, 1e2), (3.0, 3.0)]


def container(rng, lim):
    return [tuple, list, np.array][int(rng.integers(3))](lim)


def grids(ctx, prog, rng, lim, n):
    """Grids of the constituents, then of every object of the program."""
    # The implicit constituent number -1 is a scalar summand.
    parts = {-1: ConstantCrossSection(1.0)}
    parts.update({k: prog.objs[k] for k in range(prog.n_atoms)})
    for k, o in parts.items():
        g = flat(o.equidistant_probability_grid(container(rng, lim), n))
        prog.ev.append(Event([10, k, len(g)] + g, {"grid of constituent": k, "limits": lim, "n": n}))
    for i in range(len(prog.objs)):
        if i < prog.n_atoms or not hasattr(prog.objs[i], "reactions"):
            continue
        with guard(ctx, dict(prog.describe(i), limits=lim, n_points=n)):
            g = flat(prog.objs[i].equidistant_probability_grid(container(rng, lim), n))
            prog.ev.append(Event([11, i, len(g)] + g, dict(prog.describe(i), limits=lim, n_points=n, grid=g)))


def check(ctx):
    E = (1.0, 5.0)
    for k, (ops, heap) in enumerate(tlc_programs(ctx)):
        with guard(ctx, {"model behaviour": ops}):
            objs = replay_ops(ops, base_objects(heap, ops, Poly([0, 1, 0]), Poly([-1, 0, -1])))
            part = {
                p: set(flat(o.equidistant_probability_grid(E, 3)))
                for p, o in [(-1, ConstantCrossSection(1)), (0, objs[0]), (1, objs[1])]
            }
            for h, o in zip(heap[2:], objs[2:]):
                want = sorted(set().union(*[part[p] for p in h["parts"]]))
                got = flat(o.equidistant_probability_grid(E, 3))
                if got != want:
                    ctx.violation(
                        "combined grid differs from the model state",
                        {"operations": ops, "model": want, "library": got},
                    )
            ctx.traces += 1
            if k % 500 == 3:
                ctx.samples.append({"operations": ops, "parts": [sorted(h["parts"]) for h in heap]})

    rng = ctx.rng(3)
    groups, canaries = [], []
    for p in range(ctx.pick(60, 500)):
        with guard(ctx, "program %d" % p):
            prog = Program(rng, int(rng.integers(1, 5)), [1.0, 2.0])
            groups.append(prog.ev)
            for _ in range(int(rng.integers(3, 9))):
                with guard(ctx, {"after": prog.desc}):
                    prog.step()
            for _ in range(2):
                if rng.random() < 0.6:
                    lim = LIMITS[int(rng.integers(len(LIMITS)))]
                else:
                    a = float(rng.uniform(0, 5))
                    lim = (a, a + float(10 ** rng.uniform(-3, 1)))
                n = int(rng.choice([2, 2, 3, 4, 7, 12])) if rng.random() < 0.97 else int(rng.integers(50, 300))
                grids(ctx, prog, rng, lim, n)
                # Equidistant grids may run from the higher to the lower energy.
                if rng.random() < 0.3:
                    lim = lim[::-1]
                for _ in range(3):
                    i = int(rng.integers(len(prog.objs)))
                    m = int(rng.choice([1, 2, 3, 5, 10, 33])) if rng.random() < 0.97 else int(rng.integers(100, 1500))
                    with guard(ctx, dict(prog.describe(i), limits=lim, n_points=m)):
                        g = flat(prog.objs[i].equidistant_energy_grid(container(rng, lim), m))
                        prog.ev.append(
                            Event([12, lim[0], lim[1], m, len(g)] + g, dict(prog.describe(i), limits=lim, n_points=m, grid=g))
                        )
            for o, d in [
                (ConstantCrossSection(2.5), "constant"),
                (LogNonresonant(), "nonresonant"),
                (KleinNishina(), "KleinNishina"),
                (xrmac_cm2_per_g["Pb"], "xrmac"),
            ]:
                m = int(rng.integers(1, 30))
                with guard(ctx, d):
                    x = flat(o.equidistant_energy_grid(container(rng, lim), m))
                    y = flat(o.equidistant_probability_grid(container(rng, lim), m))
                    if len(x) != len(y):
                        ctx.violation("probability grid differs from the equidistant energy grid", [d, lim, m, x, y])
                    else:
                        prog.ev.append(Event([13, len(x)] + x + y, {"object": d, "limits": lim, "n": m}))
                    prog.ev.append(Event([12, lim[0], lim[1], m, len(x)] + x, {"object": d, "limits": lim, "n_points": m}))
            if p % 6 == 0:
                e = prog.ev[-1]
                if e.fields[3] > 3 and lim[0] != lim[1]:
                    canaries.append(prog.ev[:-1] + [e.corrupted(7, e.fields[7] + 1e-3 * (lim[1] - lim[0]))])
                ks = [j for j, e in enumerate(prog.ev) if e.fields[0] == 11 and e.fields[2] > 2]
                if ks:
                    e = prog.ev[ks[-1]]
                    canaries.append(prog.ev[: ks[-1]] + [e.corrupted(4, 0.5 * (e.fields[3] + e.fields[4]))])
    ctx.judge("algebra_trace", groups, stateful=True, canaries=canaries)
