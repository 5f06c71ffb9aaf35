"""C09: Doppler widths and effective temperatures follow the thermal model."""

from harness.resonances import *
from harness.symbols import Z_OF
from ries.resonance.debye_model import effective_temperature_debye_approximation as debye
from ries.resonance.debye_model import room_temperature_T_D
from ries.resonance.maxwell_boltzmann import MaxwellBoltzmann


def shaped(form, a, b):
    """Arguments in the container of the model state, and the position of the pair (a, b) in the result."""
    if form == 0:
        return a, b, 0
    if form == 1:
        return np.array([2 * a, a, 0.5 * a]), b, 1
    if form == 2:
        return a, np.array([3 * b, 0.7 * b, b]), 2
    if form == 3:
        return np.array([1.5 * a, a]), np.array([0.5 * b, b]), 1
    return np.array([[a, 2 * a], [3 * a, 4 * a]]), np.array([[b, b], [2 * b, 0.5 * b]]), 0


def check(ctx):
    rng = ctx.rng(9)
    events = []
    # heating: every transition of the model is one comparison of two library results
    unit_t = float(rng.uniform(2, 60))
    unit_d = float(rng.uniform(0.3, 1.5)) * unit_t
    known = {}

    def teff(t, td, form):
        if (t, td, form) not in known:
            T, D = unit_t * 2**t, unit_d * 2**td
            a, b, k = shaped(form, T, D)
            r = flat(debye(a, b))
            value = r[k] if len(r) == np.broadcast(a, b).size else None
            known[t, td, form] = value
            events.append(Event([2, T, D, value], dict(call="debye", T=T, T_D=D, form=form, result=value)))
        return known[t, td, form]

    for s in ctx.tlc(ctx.pick("thermal_mcq", "thermal_mct")):
        st = parse_tla(s)
        with guard(ctx, {"model state": st}):
            now = teff(st["t"], st["td"], st["form"])
            if st["last"]:
                old = teff(st["t"] - (st["last"] == 1), st["td"] - (st["last"] == 2), st["form"])
                events.append(Event([6, 2, old, now], dict(model_state=st, before=old, after=now)))
    # random temperatures in all regimes
    for k in range(ctx.pick(400, 4000)):
        TD = float(10 ** rng.uniform(0.5, 3.5))
        T = float(TD * 10 ** (rng.uniform(-2, 2) if k % 3 else rng.uniform(-6, 6)))
        if k % 10 == 0:
            T, TD = max(1, int(T)), max(1, int(TD))
        with guard(ctx, dict(call="debye", T=T, T_D=TD)):
            r = flat(debye(T, TD))[0]
            events.append(Event([2, T, TD, r], dict(call="debye", T=T, T_D=TD, result=r)))
            if k % 4 == 0:
                n = int(rng.integers(1, 5))
                ts = T * 10 ** rng.uniform(-1, 1, n)
                got = flat(debye(ts, TD))
                single = [flat(debye(float(t), TD))[0] for t in ts]
                events.append(Event([5, n] + got + single, dict(call="debye array", T=list(ts), T_D=TD, array=got, single=single)))
    for k in range(ctx.pick(500, 5000)):
        amu = float(10 ** rng.uniform(0, 2.5)) if k % 5 else int(rng.integers(1, 300))
        T = float(10 ** rng.uniform(-2, 10)) if k % 7 else int(rng.integers(1, 10000))
        E = float(10 ** rng.uniform(-6, 3)) if k % 11 else int(rng.integers(1, 20))
        info = dict(amu=amu, T=T, E=E)
        with guard(ctx, info):
            m = MaxwellBoltzmann(amu, T)
            w = flat(m.get_doppler_width(E))[0]
            events.append(Event([0, amu, T, E, w], dict(info, call="Doppler width", width=w)))
            # back to the temperature, and from an unrelated width
            events.append(Event([1, w, amu, E, flat(MaxwellBoltzmann.get_effective_temperature(w, amu, E))[0]], dict(info, width=w, call="effective temperature")))
            v = float(E * 10 ** rng.uniform(-7, 1))
            t = flat(m.get_effective_temperature(v, amu, E))[0]
            events.append(Event([1, v, amu, E, t], dict(info, width=v, call="effective temperature", result=t)))
            if k % 3 == 0:
                es = np.array([E, 2.0 * E, 0.1 * E])
                ws = m.get_doppler_width(es)
                single = [flat(m.get_doppler_width(float(e)))[0] for e in es]
                events.append(Event([5, 3] + flat(ws) + single, dict(info, call="Doppler width array")))
                ts = MaxwellBoltzmann.get_effective_temperature(ws, amu, es)
                single = [flat(MaxwellBoltzmann.get_effective_temperature(float(a), amu, float(b)))[0] for a, b in zip(ws, es)]
                events.append(Event([5, 3] + flat(ts) + single, dict(info, call="effective temperature array")))
    # the table: looked up by the symbols of all elements, and all of its keys
    found = []
    for x, z in Z_OF.items():
        if x in room_temperature_T_D:
            found.append(z)
            events.append(Event([3, z, room_temperature_T_D[x]], dict(call="table", symbol=x, value=room_temperature_T_D[x])))
    for x in room_temperature_T_D:
        if x not in Z_OF:
            events.append(Event([3, 0, room_temperature_T_D[x]], dict(call="table", symbol=x)))
    events.append(Event([4, len(found)] + found, dict(call="table", elements=found)))
    canaries = []
    for kind, k, f in [(0, 4, 1 + 1e-6), (1, 4, 1 - 1e-6), (2, 3, 1 + 1e-5), (3, 2, 1.1), (5, 2, 1 + 1e-9)]:
        chosen = [e for e in events if e.fields[0] == kind and e.fields[k] is not None][:10]
        canaries += [[e.corrupted(k, e.fields[k] * f)] for e in chosen]
    ctx.judge("thermal_trace", groups_of(events, 20), canaries=canaries)
