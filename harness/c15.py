"""C15: results do not depend on what was computed before."""

import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from harness import session
from harness.core import VERIF, Event, MachineryError, parse_tla


def execute(ctx, index, sessions, direct=False):
    d = os.path.join(ctx.scratch, "data%d" % index)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    job = {"seed": ctx.seed, "dir": d, "sessions": sessions, "direct": direct}
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(VERIF, "harness", "session.py")],
            input=json.dumps(job),
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            text=True,
            env=env,
            timeout=800,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError("sessions timed out")
    if r.returncode:
        raise MachineryError("sessions failed:\n" + r.stderr[-3000:])
    return json.loads(r.stdout)


def check(ctx):
    rng = ctx.rng(15)
    # the invariant accepts libraries with and without memory, and rejects shared or confused memory
    ctx.tlc("session_mcc", dump=False)
    ctx.tlc("session_mcw", dump=False)
    for module in ("session_mca", "session_mcm", "session_mci"):
        ctx.tlc_refutes(module)
    length = ctx.pick(5, 7)
    histories = []
    for s in ctx.tlc(ctx.pick("session_mcq", "session_mct")):
        st = parse_tla(s)
        asks = [h for h in st["hist"] if h["op"] == 1]
        if len(st["hist"]) == length and len(asks) >= 2 and st["hist"][-1]["op"] != 3:
            histories.append(st["hist"])
    worlds = session.catalogue(ctx.seed, ctx.scratch)
    names = sorted(worlds)

    def pick(world):
        q = int(rng.integers(len(worlds[world][2])))
        return q, int(rng.integers(len(worlds[world][2][q][2])))

    # model -> code: every history of the model, in several worlds
    sessions = []
    turn = 0
    for h in histories:
        for _ in range(ctx.pick(4, 1)):
            turn += 1
            world = names[turn % len(names)]
            other = world if rng.random() < 0.8 else names[int(rng.integers(len(names)))]
            c = [(world, 0), (other, int(rng.integers(1, len(worlds[other][0]))) if rng.random() < 0.8 else 0)]
            q = {w: [pick(w), pick(w)] for w in (world, other)}
            for w in q:
                if rng.random() < 0.5:
                    # the same method with other arguments
                    k = q[w][0][0]
                    q[w][1] = (k, int(rng.integers(len(worlds[w][2][k][2]))))
            ops, objs = [int(rng.integers(2))], []
            for o in h:
                if o["op"] == 0:
                    objs.append(c[o["i"]][0])
                    ops.append([0, *c[o["i"]]])
                elif o["op"] == 1:
                    ops.append([1, o["i"], *q[objs[o["i"]]][o["q"]]])
                else:
                    ops.append([o["op"], o["i"]])
            sessions.append(ops)
    ctx.note("model_histories", len(histories))

    # longer random sessions over few related objects
    for k in range(ctx.pick(300, 3000)):
        few = [names[int(i)] for i in rng.choice(len(names), int(rng.integers(1, 4)), replace=False)]
        if k % 3 == 0:
            few = [w for w in ("box", "breit_wigner", "gauss", "pseudo_voigt", "voigt", "sum") if rng.random() < 0.6] or few
        ops, objs, live, n = [int(rng.integers(2))], [], [], 0
        menu = {w: [pick(w) for _ in range(4)] for w in few}
        for _ in range(int(rng.integers(10, ctx.pick(40, 60)))):
            u = rng.random()
            if not live or (u < 0.2 and len(live) < 6):
                w = few[int(rng.integers(len(few)))]
                objs.append(w)
                live.append(len(objs) - 1)
                ops.append([0, w, int(rng.integers(len(worlds[w][0])))])
            elif live and u < 0.3:
                ops.append([3, live.pop(int(rng.integers(len(live))))])
            elif n and u < 0.45:
                ops.append([2, int(rng.integers(n))])
            else:
                i = live[int(rng.integers(len(live)))]
                ops.append([1, i, *menu[objs[i]][int(rng.integers(4))]])
                n += 1
        sessions.append(ops)

    # the history which refutes addresses as keys, for every query: objects take the place of given up objects
    for w in names:
        for q in range(len(worlds[w][2])):
            ops = [int(rng.integers(2))]
            n, configs, arguments = 0, len(worlds[w][0]), range(len(worlds[w][2][q][2]))
            for c in rng.permutation(configs):
                ops.append([0, w, int(c)])
                ops += [[1, n, q, a] for a in arguments]
                ops.append([3, n])
                n += 1
            for _ in range(3):
                # several objects at once, so that it does not matter which of the places is used again
                created = list(range(n, n + configs))
                for c in rng.permutation(configs):
                    ops.append([0, w, int(c)])
                ops += [[1, i, q, a] for i in created for a in arguments]
                ops += [[3, i] for i in rng.permutation(created).tolist()]
                n += configs
            sessions.append(ops)

    # every query alone in a fresh process
    alone = []
    for w in names:
        for c in range(len(worlds[w][0])):
            for q in range(len(worlds[w][2])):
                for a in range(len(worlds[w][2][q][2])):
                    alone.append([0, [0, w, c], [1, 0, q, a]])
    ctx.note("queries_alone", len(alone))
    jobs = [(alone[i::8] + sessions[i::8], False) for i in range(8)]
    # newly started interpreters with one session of all queries in random order
    for _ in range(ctx.pick(8, 40)):
        order = [alone[int(i)] for i in rng.permutation(len(alone))[: ctx.pick(250, 1000)]]
        ops, n = [0], 0
        for s in order:
            ops += [s[1], [1, n, *s[2][2:]]]
            n += 1
            if rng.random() < 0.5:
                ops.append([2, n - 1])
        jobs.append(([ops], True))
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: execute(ctx, j[0], j[1][0], j[1][1]), enumerate(jobs)))
    by_key, rest = {}, []
    process = 0
    for (ss, direct), outs in zip(jobs, results):
        for ops, out in zip(ss, outs):
            process += 1
            for kind, x, y, label, content in out:
                info = {"query": label, "content": content, "process": process, "operations": len(ops)}
                if kind == 1:
                    by_key.setdefault(x, []).append(Event([1, x, y, process], info))
                else:
                    rest.append(Event([kind, x, y], info))
    ctx.note("distinct_queries", len(by_key))
    # All observations of a query belong to one group. Repetitions that are equal field by field say nothing new,
    # therefore at most a few of them are kept.
    groups = []
    for k in sorted(by_key):
        seen, g = {}, []
        for e in by_key[k]:
            seen[e.fields[2]] = seen.get(e.fields[2], 0) + 1
            if seen[e.fields[2]] <= ctx.pick(12, 25):
                g.append(e)
        groups.append(g)
        ctx.note("observed_answers", len(by_key[k]))
    kept, count = [], {}
    for e in rest:
        same = (e.fields[0], e.fields[1] == e.fields[2], str(e.info["query"]))
        count[same] = count.get(same, 0) + 1
        if count[same] <= ctx.pick(3, 6):
            kept.append(e)
    canaries = []
    for g in [g for g in groups if len(g) > 1][:10]:
        canaries.append([g[0], g[1].corrupted(2, g[1].fields[2] ^ 1)])
    for kind in (2, 3, 4):
        for e in [e for e in kept if e.fields[0] == kind][:5]:
            canaries.append([e.corrupted(2, e.fields[2] ^ 1)])
    blocks = []
    for g in groups:
        if blocks and len(blocks[-1]) + len(g) <= 100:
            blocks[-1] = blocks[-1] + g
        else:
            blocks.append(g)
    blocks += [kept[i : i + 100] for i in range(0, len(kept), 100)]
    ctx.judge("session_trace", blocks, stateful=True, canaries=canaries)
    # one trace per session (process)
    ctx.traces = process
