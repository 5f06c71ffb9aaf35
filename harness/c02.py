"""C02: combining cross sections never alters operands or shares state with them."""

from harness.algebra import *
from harness.core import Event


class Watch:
    """Numbers for constituents (by identity) and snapshots of objects."""

    def __init__(self, energies):
        self.E = np.array(energies)
        self.seen = []
        self.touched = False

    def number(self, o):
        for i, s in enumerate(self.seen):
            if s is o:
                return i
        self.seen.append(o)
        return len(self.seen) - 1

    def lists(self, o):
        r, s = getattr(o, "reactions", None), getattr(o, "scale_factors", None)
        if r is None or s is None:
            return []
        if len(r) != len(s):
            return [(-1, float(len(r))), (-2, float(len(s)))]
        return [(self.number(x), float(c)) for x, c in zip(r, s)]

    def snapshot(self, o):
        E = self.E.copy()
        vals = flat(np.broadcast_to(np.asarray(o(E), dtype=float), self.E.shape))
        if not np.array_equal(E, self.E):
            self.touched = True
        return self.lists(o), vals


def tamper(rng, o):
    o.reactions.append(Poly([100, 1, 1]))
    o.scale_factors.insert(0, 99.0)
    o.scale_factors[-1] = 77.0
    if rng.random() < 0.5:
        o.reactions.reverse()
    if rng.random() < 0.3:
        del o.reactions[:]
        del o.scale_factors[:]


def check(ctx):
    # model -> code: the heap of the model only grows, so must the one of the library
    E = [1.0, 2.0, 5.0]
    rng0 = ctx.rng(7)
    for n, (ops, heap) in enumerate(tlc_programs(ctx)):
        with guard(ctx, {"model behaviour": ops}):
            w = Watch(E)
            objs = base_objects(heap, ops, *[(Poly([0, 1, 0]), Memo([3, 0, -1])), (Echo(), Poly([3, 0, -1]))][n % 2])
            snaps = [w.snapshot(o) for o in objs]
            for k, o in enumerate(ops):
                replay_ops([o], objs)
                if any(objs[-1] is x for x in objs[:-1]):
                    ctx.violation("operation did not return a new object", {"operations": ops[: k + 1]})
                now = [w.snapshot(x) for x in objs[:-1]]
                if now != snaps:
                    ctx.violation("an existing object changed", {"operations": ops[: k + 1], "before": snaps, "after": now})
                snaps = now + [w.snapshot(objs[-1])]
            # The last object is an operand of nothing: overwriting its lists must not be seen elsewhere.
            if ops and len(heap) == len(objs):
                tamper(rng0, objs[-1])
                tamper(rng0, CrossSectionWeightedSum())
                now = [w.snapshot(x) for x in objs[:-1]]
                if now != snaps[:-1]:
                    ctx.violation("an operand shares lists with the result", {"operations": ops})
            if w.touched:
                ctx.violation("an evaluation modified the energies", {"operations": ops, "energies": E})
            ctx.traces += 1
            if n % 500 == 3:
                ctx.samples.append({"operations": ops, "snapshots": snaps})

    # code -> model
    rng = ctx.rng(2)
    groups, canaries = [], []
    for p in range(ctx.pick(40, 300)):
        energies = sorted(float(v) for v in np.round(rng.uniform(0.01, 6.0, 3), 3))
        with guard(ctx, "program %d" % p):
            prog = Program(rng, int(rng.integers(2, 5)), energies)
            groups.append(prog.ev)
            w = Watch(energies)

            def peek(i):
                lists, vals = w.snapshot(prog.objs[i])
                prog.ev.append(
                    Event(
                        [7, i, len(lists)] + [v for pair in lists for v in pair] + vals,
                        dict(prog.describe(i), holds=lists, values=vals),
                    )
                )
                if w.touched:
                    w.touched = False
                    ctx.violation("an evaluation modified the energies", dict(prog.describe(i), energies=energies))

            for _ in range(int(rng.integers(3))):
                prog.step("empty")
            for i in range(len(prog.objs)):
                peek(i)
            for _ in range(int(rng.integers(4, 11))):
                with guard(ctx, {"after": prog.desc}):
                    prog.step()
                    for i in prog.live():
                        peek(i)
                    i = int(rng.choice(prog.live()))
                    what = rng.random()
                    if what < 0.3:
                        a = np.array(energies) if rng.random() < 0.5 else np.outer(energies, [1.0, 2.0])
                        before = flat(a)
                        prog.objs[i](a)
                        prog.ev.append(Event([9, len(before)] + before + flat(a), dict(prog.describe(i), argument=before)))
                        peek(i)
                    elif what < 0.6:
                        lim = [0.5, 5.5] if rng.random() < 0.5 else np.array([0.5, 5.5])
                        before = flat(lim)
                        if rng.random() < 0.5:
                            prog.objs[i].equidistant_energy_grid(lim, 4)
                        else:
                            prog.objs[i].equidistant_probability_grid(lim, 4)
                        prog.ev.append(Event([9, 2] + before + flat(lim), dict(prog.describe(i), limits=before)))
                        peek(i)
                    elif what < 0.8:
                        free = [
                            j
                            for j in prog.live()
                            if hasattr(prog.objs[j], "reactions")
                            and not any(j in prog.parents.get(k, ()) for k in prog.live())
                        ]
                        if free:
                            j = int(rng.choice(free))
                            tamper(rng, prog.objs[j])
                            prog.ev.append(Event([8, j], {"lists overwritten": prog.describe(j)}))
                            prog.dead.add(j)
            for i in prog.live():
                with guard(ctx, prog.desc):
                    # long array, of which some energies are recorded
                    a = np.linspace(0.5, 5.5, int(10 ** rng.uniform(2, 4.5)))
                    at = [0, len(a) - 1] + [int(j) for j in rng.integers(0, len(a), 4)]
                    before = flat(a[at])
                    prog.objs[i](a)
                    prog.ev.append(Event([9, len(before)] + before + flat(a[at]), dict(prog.describe(i), argument="%d energies" % len(a))))
                    peek(i)
            if p % 8 == 0:
                e = prog.ev[-1]
                k = len(e.fields) - 1
                canaries.append(prog.ev[:-1] + [e.corrupted(k, e.fields[k] + 0.25)])
    canaries = [c for c in canaries if moderate(c)]
    ctx.judge("algebra_trace", groups, stateful=True, canaries=canaries)
