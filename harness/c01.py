"""C01: expressions evaluate to their linear combination."""

import math

from harness.algebra import *
from harness.core import Event


def check(ctx):
    # model -> code: every program of the small scope
    E = [1.0, 2.0, 5.0]
    arr = np.array(E)
    for n, (ops, heap) in enumerate(tlc_programs(ctx)):
        with guard(ctx, {"model behaviour": ops}):
            objs = replay_ops(ops, base_objects(heap, ops, Poly([0, 1, 0]), Poly([3, 0, -1])))
            av = [[o(e) for e in E] for o in objs[:2]]
            want = [
                [h["coef"][0] * av[0][k] + h["coef"][1] * av[1][k] + h["coef"][2] for k in range(3)] for h in heap
            ]
            got = [[float(v) for v in np.broadcast_to(o(arr), arr.shape)] for o in objs]
            one = [float(o(E[1])) for o in objs]
            ctx.traces += 1
            if got != want or one != [w[1] for w in want]:
                ctx.violation(
                    "value differs from the model state",
                    {"operations": ops, "model": want, "library": got, "single energy": one},
                )
            if n % 400 == 7:
                ctx.samples.append({"operations": ops, "values": got})

    # code -> model: random programs over all kinds of constituents
    rng = ctx.rng(1)
    groups, canaries = [], []
    for p in range(ctx.pick(70, 700)):
        energies = sorted(float(v) for v in np.round(rng.uniform(0.01, 6.0, 4), 3))
        if rng.random() < 0.3:
            energies[1] = 2.0
        with guard(ctx, "program %d" % p):
            prog = Program(rng, int(rng.integers(2, 6)), energies)
            groups.append(prog.ev)
            for _ in range(int(rng.integers(4, 14))):
                with guard(ctx, {"after": prog.desc}):
                    i = prog.step()
                    prog.eval_all(i)
                    prog.eval_one(i, int(rng.integers(4)))
                    if rng.random() < 0.2:
                        prog.eval_2d(i)
            for i in range(len(prog.objs)):
                with guard(ctx, prog.desc):
                    prog.eval_all(i)
            if p % 10 == 0:
                k = max(j for j, e in enumerate(prog.ev) if e.fields[0] == 6)
                e = prog.ev[k]
                if e.fields[2] not in (None, 0.0) and e.fields[2] == e.fields[2]:
                    canaries.append(prog.ev[:k] + [e.corrupted(2, e.fields[2] * (1 + 1e-3) + math.copysign(1e-3, e.fields[2]))])
    canaries = [c for c in canaries if moderate(c)]
    ctx.judge("algebra_trace", groups, stateful=True, canaries=canaries)
