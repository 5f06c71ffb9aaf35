"""C06: energy-integrated cross sections follow the level scheme."""

from harness.resonances import *

HBARC = 197.3269804


def build(kind, twoJ0, twoJ2, E0, E2, widths, channel, amu, T, recoil=None, shift=0):
    """widths: list; channel -1: no final state, k: final state number k; state 0 is the initial one.

    shift: position of the initial state in the list of channels"""
    names = ["initial", "other", "third", "fourth", "fifth"] + ["level %d" % k for k in range(5, len(widths))]
    if E0 == 0.0:
        states = [GroundState(names[0], twoJ0, 1)]
    else:
        states = [State(names[0], twoJ0, 1, E0, {"gs": 1e-9})]
    for k in range(1, len(widths)):
        states.append(State(names[k], k, -1, 0.1 * k, {"gs": 1e-9}))
    order = [(k - shift) % len(widths) for k in range(len(widths))]
    e = State("excited", twoJ2, -1, E2, {names[k]: widths[k] for k in order})
    r = make_resonance(
        kind, states[0], e, amu, T, None if channel < 0 else states[channel],
        FreeNucleusRecoil(recoil) if recoil is not None else None,
    )
    return e, r


def observe(e, r):
    return [e.width, r.resonance_energy, r.statistical_factor, r.final_state_branching_ratio, r.energy_integrated_cross_section]


def check(ctx):
    # model -> code
    c2 = (math.pi * HBARC) ** 2
    n = 0
    for s in ctx.tlc(ctx.pick("levels_mcq", "levels_mct")):
        st = parse_tla(s)
        if st["phase"] != 1:
            continue
        x, ch = st["s"], st["channel"]
        n += 1
        kind = KINDS[n % 5]
        unit = 1e-3
        with guard(ctx, {"model state": st, "kind": kind}):
            e, r = build(kind, x["twoJ0"], x["twoJ2"], float(x["e0"]), float(x["e2"]), [unit * w for w in x["widths"]], ch, 50.0, 300.0, shift=n)
            want = [
                unit * sum(x["widths"]),
                float(x["e2"] - x["e0"]),
                (x["twoJ2"] + 1) / (x["twoJ0"] + 1),
                st["br"]["num"] / st["br"]["den"],
                c2 * unit * st["strength"]["num"] / st["strength"]["den"],
            ]
            got = flat(observe(e, r))
            ctx.traces += 1
            if len(got) != 5 or any(not abs(g - w) <= 1e-8 * abs(w) for g, w in zip(got, want)):
                ctx.violation(
                    "level scheme differs from the model state",
                    {"kind": kind, "scheme": x, "channel": ch, "model": want, "library": got},
                )
            if n % 1500 == 1:
                ctx.samples.append({"kind": kind, "scheme": x, "channel": ch, "observed": got})

    # code -> model
    rng = ctx.rng(6)
    events = []
    for k in range(ctx.pick(700, 6000)):
        kind = KINDS[int(rng.integers(5))]
        twoJ0, twoJ2 = (int(v) for v in rng.integers(0, 15, 2))
        E0 = 0.0 if rng.random() < 0.5 else float(rng.uniform(0.01, 3))
        E2 = E0 + float(10 ** rng.uniform(-2, 1.3))
        if rng.random() < 0.2:
            E2 = E0 + float(10 ** rng.uniform(-6, 4))
        if rng.random() < 0.1:
            twoJ0, twoJ2 = (int(v) for v in rng.integers(0, 81, 2))
        nw = int(rng.integers(1, 6)) if rng.random() < 0.95 else int(rng.integers(6, 31))
        shift = int(rng.integers(nw))
        widths = [float(10 ** rng.uniform(-9, -1)) for _ in range(nw)]
        if rng.random() < 0.2:
            widths = [float(10 ** rng.uniform(-25, 3)) for _ in range(nw)]
        for j in range(1, nw):
            if rng.random() < 0.15:
                widths[j] = 0.0
            if rng.random() < 0.1:
                widths[j] = widths[0]
        if rng.random() < 0.1:
            widths = [int(rng.integers(1, 4)) for _ in widths]
        ch = int(rng.integers(-1, nw))
        amu, T = float(rng.uniform(1, 250)), float(rng.uniform(1, 2000))
        if rng.random() < 0.2:
            amu, T = float(10 ** rng.uniform(-3, 4)), float(10 ** rng.uniform(-2, 7))
        recoil = amu if kind == "box" and rng.random() < 0.6 else None
        info = dict(kind=kind, twoJ0=twoJ0, twoJ2=twoJ2, E0=E0, E2=E2, widths=widths, final=ch, amu=amu, T=T, recoil=recoil)
        with guard(ctx, info):
            e, r = build(kind, twoJ0, twoJ2, E0, E2, widths, ch, amu, T, recoil, shift)
            events.append(
                Event(
                    [1, KINDS.index(kind), twoJ0, twoJ2, E0, E2, recoil, widths[0], None if ch < 0 else widths[ch], nw]
                    + widths
                    + observe(e, r),
                    dict(info, observed=flat(observe(e, r))),
                )
            )
            if k % 4 == 0:
                areas = [
                    build(kind, twoJ0, twoJ2, E0, E2, widths, c, amu, T, recoil, shift + c)[1].energy_integrated_cross_section
                    for c in list(range(nw)) + [-1]
                ]
                events.append(Event([2, nw] + areas, dict(info, areas=flat(areas))))
    canaries = [[e.corrupted(len(e.fields) - 1 - k % 5, e.fields[len(e.fields) - 1 - k % 5] * (1 + 1e-6))] for k, e in enumerate(events[:40]) if e.fields[0] == 1 and all(e.fields[-5:])]
    ctx.judge("resonance_trace", groups_of(events), canaries=canaries)
