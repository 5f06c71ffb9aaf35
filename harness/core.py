"""Common machinery: packed events, trace modules, quint and TLC runs, evidence, verdicts."""

import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

# numbers in the states of the models are integers of any length
sys.set_int_max_str_digits(0)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


# ----------------------------------------------------------------------------- events


def field(x):
    """Encode one value: 64 bits mantissa, 16 bits exponent, 16 bits tag."""
    tag, m, e = 0, 0, 0
    if x is None:
        tag = 4
    elif isinstance(x, bool):
        m = int(x)
    elif isinstance(x, int):
        m = x
        while not -(2**63) <= m < 2**63:
            if m % 2:
                raise MachineryError("integer does not fit into an event field: %r" % x)
            m, e = m // 2, e + 1
    else:
        x = float(x)
        if math.isnan(x):
            tag = 3
        elif math.isinf(x):
            tag = 1 if x > 0 else 2
        elif x != 0.0:
            mant, e = math.frexp(x)
            m, e = int(mant * 2**53), e - 53
    return (m + 2**63) | ((e + 2**15) << 64) | (tag << 80)


class Event:
    """One observation: numeric fields for the specification, and a description for people."""

    __slots__ = ("fields", "info")

    def __init__(self, fields, info=None):
        self.fields = [plain(f) for f in fields]
        self.info = info

    def packed(self):
        n = len(self.fields)
        r = n
        for i, f in enumerate(self.fields):
            r |= field(f) << (16 + 96 * i)
        return r

    def corrupted(self, k, value):
        f = list(self.fields)
        f[k] = value
        return Event(f, {"canary": True, "corrupted_field": k, "original": self.info})


def plain(x):
    """Plain Python number (or None) for anything the library may return as a scalar."""
    if x is None or isinstance(x, (bool, int, float)):
        return x
    try:
        import numpy as np

        if isinstance(x, np.ndarray):
            if x.size != 1:
                return float("nan")
            x = x.reshape(-1)[0]
        if isinstance(x, np.bool_):
            return bool(x)
        if isinstance(x, np.integer):
            return int(x)
        return float(x)
    except (TypeError, ValueError):
        return None


# ----------------------------------------------------------------------------- quint


def chunk_module(packed, chunk=10):
    """Definitions of the trace; long list literals are slow, so build it from chunks."""
    lines, names = [], []
    for i in range(0, len(packed), chunk):
        name = "c%d" % (i // chunk)
        lines.append(
            "  pure val %s: List[int] = [%s]"
            % (name, ", ".join("0x%x" % p for p in packed[i : i + chunk]))
        )
        names.append(name)
    level = 0
    while len(names) > 1:
        new = []
        for i in range(0, len(names), 2):
            if i + 1 < len(names):
                name = "d%d_%d" % (level, i // 2)
                lines.append(
                    "  pure val %s: List[int] = %s.concat(%s)"
                    % (name, names[i], names[i + 1])
                )
                new.append(name)
            else:
                new.append(names[i])
        names, level = new, level + 1
    lines.append(
        "  pure val TR: List[int] = %s" % (names[0] if names else "[]")
    )
    return "\n".join(lines)


def quint_env():
    env = dict(os.environ)
    env.setdefault("NODE_OPTIONS", "--stack-size=4000 --max-old-space-size=3000")
    return env


def run_quint(args, cwd, timeout):
    try:
        return subprocess.run(
            ["quint"] + args,
            cwd=cwd,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=timeout,
            text=True,
        )
    except subprocess.TimeoutExpired:
        raise MachineryError("quint timed out: %s" % " ".join(args))


def unitf(v):
    """ITF value to Python value."""
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#tup" in v:
            return tuple(unitf(x) for x in v["#tup"])
        if "#set" in v:
            return frozenset(unitf(x) for x in v["#set"])
        if "#map" in v:
            return {unitf(k): unitf(x) for k, x in v["#map"]}
        return {k: unitf(x) for k, x in v.items() if k != "#meta"}
    if isinstance(v, list):
        return [unitf(x) for x in v]
    return v


class Judge:
    """Steps a trace specification through recorded events."""

    def __init__(self, module, scratch, stateful=False, prelude=""):
        self.module, self.scratch, self.stateful = module, scratch, stateful
        self.prelude = prelude
        self.steps = 0
        self.count = 0

    def source(self, events):
        rel = os.path.relpath(SPEC, self.scratch)
        head = '  import num.* from "%s/num"\n  import %s.* from "%s/%s"\n' % (
            rel,
            self.module,
            rel,
            self.module,
        )
        if self.stateful:
            body = """
  var l: int
  var st: St
  var rej: List[(int, str)]
  action init = all { l' = 0, st' = initSt, rej' = [] }
  action step = {
    val r = accept(st, TR[l])
    all { l' = l + 1, st' = r.st, rej' = if (r.err == "") rej else rej.append((l, r.err)) }
  }
"""
        else:
            body = """
  var l: int
  var rej: List[(int, str)]
  action init = all { l' = 0, rej' = [] }
  action step = {
    val err = judge(TR[l])
    all { l' = l + 1, rej' = if (err == "") rej else rej.append((l, err)) }
  }
"""
        return "module gen {\n%s%s%s\n%s}\n" % (
            head,
            self.prelude,
            chunk_module([e.packed() for e in events]),
            body,
        )

    def one(self, job):
        index, events = job
        if not events:
            return []
        d = os.path.join(self.scratch, "j%d" % index)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, "gen.qnt")
        keep = self.scratch
        self_scratch = d
        rel = os.path.relpath(SPEC, self_scratch)
        text = self.source(events).replace(os.path.relpath(SPEC, keep) + "/", rel + "/")
        with open(src, "w") as f:
            f.write(text)
        out = os.path.join(d, "out.itf.json")
        r = run_quint(
            [
                "run",
                "--max-samples=1",
                "--max-steps=%d" % len(events),
                "--verbosity=1",
                "--seed=1",
                "--out-itf=" + out,
                "--main=gen",
                src,
            ],
            d,
            3600,
        )
        if not os.path.exists(out):
            raise MachineryError("quint produced no trace:\n" + r.stdout[:3000])
        with open(out) as f:
            states = json.load(f)["states"]
        last = unitf(states[-1])
        if last["l"] != len(events) or len(states) != len(events) + 1:
            raise MachineryError(
                "trace specification stopped at event %s of %d:\n%s"
                % (last["l"], len(events), r.stdout[:3000])
            )
        self.steps += len(states) - 1
        shutil.rmtree(d)
        return [(i, err) for i, err in last["rej"]]

    def run(self, groups, workers=8):
        """groups: list of lists of events; a group is never split. Returns [(event, clause)]."""
        groups = [g for g in groups if g]
        if not groups:
            return []
        # Distribute the groups evenly, and keep each file small enough for the parser.
        total = sum(len(g) for g in groups)
        per = max(1, min(1500, -(-total // workers)))
        jobs, cur = [], []
        for g in groups:
            if cur and len(cur) + len(g) > per:
                jobs.append(cur)
                cur = []
            cur = cur + g
        if cur:
            jobs.append(cur)
        base = self.count
        self.count += len(jobs)
        with ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(self.one, [(base + i, j) for i, j in enumerate(jobs)]))
        bad = []
        for job, res in zip(jobs, results):
            for i, err in res:
                if err.startswith("trace:"):
                    raise MachineryError("malformed trace: %s at %r" % (err, job[i].info))
                bad.append((job[i], err))
        return bad


def groups_of(events, n=50):
    return [events[i : i + n] for i in range(0, len(events), n)]


def simulate(main, source, scratch, invariant, steps, samples, seed, timeout=600):
    """quint run on a state machine of the specification; returns a behaviour, or raises."""
    out = os.path.join(scratch, "sim_%s.itf.json" % main)
    r = run_quint(
        [
            "run",
            "--main=" + main,
            "--invariant=" + invariant,
            "--max-steps=%d" % steps,
            "--max-samples=%d" % samples,
            "--seed=%d" % seed,
            "--verbosity=2",
            "--out-itf=" + out,
            os.path.join(SPEC, source),
        ],
        scratch,
        timeout,
    )
    if "[ok]" not in r.stdout:
        raise MachineryError("simulation of %s failed:\n%s" % (main, r.stdout[:3000]))
    with open(out) as f:
        return [unitf(s) for s in json.load(f)["states"]]


def mbt_traces(main, source, scratch, steps, n_traces, seed, timeout=900):
    """Behaviours of a state machine with the action taken in each step."""
    r = run_quint(
        [
            "run",
            "--main=" + main,
            "--mbt",
            "--max-steps=%d" % steps,
            "--max-samples=%d" % n_traces,
            "--n-traces=%d" % n_traces,
            "--seed=%d" % seed,
            "--verbosity=1",
            "--out-itf=" + os.path.join(scratch, "mbt_%s_{seq}.itf.json" % main),
            os.path.join(SPEC, source),
        ],
        scratch,
        timeout,
    )
    traces = []
    for i in range(n_traces):
        p = os.path.join(scratch, "mbt_%s_%d.itf.json" % (main, i))
        if os.path.exists(p):
            with open(p) as f:
                traces.append([unitf(s) for s in json.load(f)["states"]])
            os.remove(p)
    if not traces:
        raise MachineryError("no behaviours generated for %s:\n%s" % (main, r.stdout[:3000]))
    return traces


# ----------------------------------------------------------------------------- TLC


def _set(items):
    try:
        return frozenset(items)
    except TypeError:
        return list(items)


def parse_tla(text):
    """State of a TLC dump to a dictionary."""
    t = text.replace("{", "\x01").replace("}", "\x02")
    t = t.replace("<<", "\x03").replace(">>", "\x04")
    t = t.replace("[", "{").replace("]", "}")
    t = re.sub(r"(\w+) \|->", r"'\1':", t)
    t = t.replace("\x03", "[").replace("\x04", "]")
    t = t.replace("\x01", "S([").replace("\x02", "])")
    t = t.replace("TRUE", "True").replace("FALSE", "False")
    parts = re.split(r"(?:^|\n)/\\ (\w+) = ", t)
    return {
        parts[i]: eval(parts[i + 1].replace("\n", " "), {"S": _set})
        for i in range(1, len(parts), 2)
    }


def run_tlc(module, scratch, timeout=3000, dump=True, workers=8, refuted=False):
    """Explore the compiled state machine exhaustively. Returns (counts, states).

    refuted: the invariant has to fail (designs that the specification excludes)."""
    d = os.path.join(scratch, "tlc_" + module)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(SPEC, "tlc")):
        if f in ("Apalache.tla", "Variants.tla", module + ".tla"):
            shutil.copy(os.path.join(SPEC, "tlc", f), d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write("INIT q_init\nNEXT q_step\nINVARIANT q_inv\n")
    cmd = ["tlc", "-deadlock", "-workers", str(workers), "-metadir", os.path.join(d, "meta")]
    if dump:
        cmd += ["-dump", os.path.join(d, "states")]
    cmd += ["-config", module + ".cfg", module + ".tla"]
    try:
        r = subprocess.run(
            cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout
        )
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timed out on " + module)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", r.stdout)
    if refuted:
        shutil.rmtree(d)
        if "Invariant q_inv is violated" not in r.stdout or not m:
            raise MachineryError("TLC did not refute %s:\n%s" % (module, r.stdout[-3000:]))
        return {"generated": int(m.group(1)), "distinct": int(m.group(2))}, []
    if "No error has been found" not in r.stdout or not m or int(m.group(3)):
        raise MachineryError("TLC failed on %s:\n%s" % (module, r.stdout[-3000:]))
    states = []
    if dump:
        with open(os.path.join(d, "states.dump")) as f:
            text = f.read()
        for s in re.split(r"\n*State \d+:\n", text):
            if s.strip():
                states.append(s.strip())
        # the order of the dump depends on the scheduling of the workers
        states.sort()
    shutil.rmtree(d)
    first = re.search(r"Finished computing initial states: (\d+) (?:distinct )?state", r.stdout)
    if not first:
        raise MachineryError("TLC reported no initial states:\n" + r.stdout[-2000:])
    return {
        "generated": int(m.group(1)),
        "distinct": int(m.group(2)),
        "initial": int(first.group(1)),
    }, states


# ----------------------------------------------------------------------------- check context


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.assumptions = []

    def rng(self, salt=0):
        import numpy as np

        return np.random.default_rng([self.seed & 0xFFFFFFFF, salt])

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def note(self, key, n):
        self.extra[key] = self.extra.get(key, 0) + n

    def tlc(self, module, dump=True):
        counts, states = run_tlc(module, self.scratch, dump=dump)
        self.states += counts["distinct"]
        # Every generated state except the initial ones is the result of one transition.
        self.transitions += counts["generated"] - counts["initial"]
        self.note("tlc_states_" + module, counts["distinct"])
        return states

    def tlc_refutes(self, module):
        """TLC has to find a counterexample: the invariant excludes this design."""
        counts, _ = run_tlc(module, self.scratch, dump=False, refuted=True)
        self.note("tlc_states_until_refutation_" + module, counts["distinct"])

    def violation(self, clause, info):
        self.violations.append({"clause": clause, "event": info})

    def judge(self, module, groups, stateful=False, label="", canaries=(), prelude=""):
        """Validate recorded events against a trace specification.

        canaries: list of groups whose last event was corrupted and must be rejected."""
        j = Judge(module, self.scratch, stateful, prelude)
        groups = [g for g in groups if g]
        bad = j.run(groups)
        for ev, clause in bad:
            self.violation(clause, ev.info if ev.info is not None else ev.fields)
        self.states += j.steps + len(groups)
        self.transitions += j.steps
        self.traces += len(groups)
        self.note("events_" + (label or module), j.steps)
        if groups:
            mid = groups[len(groups) // 2]
            self.samples.append(sample(mid[len(mid) // 2]))
        canaries = [g for g in canaries if g]
        if canaries and not self.violations:
            jc = Judge(module, os.path.join(self.scratch), stateful, prelude)
            jc.count = 1000
            hit = {id(ev) for ev, _ in jc.run(canaries)}
            missed = [g[-1] for g in canaries if id(g[-1]) not in hit]
            self.note("canaries_rejected_" + (label or module), len(canaries) - len(missed))
            # The corruption of a few events may be smaller than their rounding errors.
            if len(missed) > len(canaries) // 20:
                raise MachineryError(
                    "the specification accepted a corrupted observation: %r" % (missed[0].info,)
                )

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def sample(ev):
    return {"event": ev.info if ev.info is not None else "", "fields": [str(f) for f in ev.fields[:12]]}


def known_findings():
    """Entries 'known: property=<id> key=<key> <text>' of the committed findings file."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    out.append(m.groups())
    return out


def finish(ctx):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": {
            "states": ctx.states,
            "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "samples": ctx.samples[:8],
            **ctx.extra,
        },
        "wall_s": round(time.time() - ctx.t0, 2),
        "assumptions": ctx.assumptions,
        "violations": len(ctx.violations),
    }
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if ctx.violations:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_%d.json" % (ctx.prop, ctx.tier, ctx.seed))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": ctx.prop,
                    "tier": ctx.tier,
                    "seed": ctx.seed,
                    "rerun": "VERIF_SEED=%d VERIF_TIER=%s /opt/venv/bin/python check.py %s"
                    % (ctx.seed, ctx.tier, ctx.prop),
                    "violations": ctx.violations[:200],
                },
                f,
                indent=1,
                default=str,
            )
            f.write("\n")
        shown = set()
        for v in ctx.violations:
            if v["clause"] not in shown:
                shown.add(v["clause"])
                print("  %s: %s" % (v["clause"], str(v["event"])[:600]))
            if len(shown) >= 8:
                break
        print("%d observations violate the specification" % len(ctx.violations))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    print(
        "%s holds: %d states, %d transitions, %d traces, %.1f s"
        % (ctx.prop, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.t0)
    )
    return 0


# ----------------------------------------------------------------------------- calls into the library


class _Guard:
    """Exceptions of the library are observations (violations), not machinery failures."""

    def __init__(self, ctx, info, limit):
        self.ctx, self.info, self.limit = ctx, info, limit

    def __enter__(self):
        import signal

        def late(signum, frame):
            raise TimeoutError("no result after %d s" % self.limit)

        self.old = signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        return self

    def __exit__(self, kind, value, tb):
        import signal

        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if kind is not None and issubclass(kind, Exception) and not issubclass(kind, MachineryError):
            where = []
            while tb is not None:
                where.append("%s:%d" % (tb.tb_frame.f_code.co_filename, tb.tb_lineno))
                tb = tb.tb_next
            self.ctx.violation(
                "a permitted call raised an exception",
                {"call": self.info, "exception": repr(value), "where": where[-3:]},
            )
            return True
        return False


def guard(ctx, info, limit=100):
    return _Guard(ctx, info, limit)


def flat(x):
    """Flat list of plain numbers of an array result; [None] if it is not an array of numbers."""
    import numpy as np

    if x is None:
        return [None]
    try:
        return [float(v) for v in np.asarray(x, dtype=float).ravel()]
    except (TypeError, ValueError):
        return [None]
