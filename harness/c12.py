"""C12: element data match the tables: isotopes, masses, abundances, densities."""

import os
import re

import numpy as np

from harness.core import Event, flat, guard, parse_tla
from harness.symbols import SYMBOLS
from harness.texts import line_fields, lines_of
from ries.constituents.element import Element, X, natural_elements
from ries.constituents.isotope import Isotope
from ries.constituents.natural_element_data import Geant4DensityDataReader, NISTElementDataReader


def packed(text):
    """Short text as an integer; nothing if it is not a short text."""
    if not isinstance(text, str) or not 0 < len(text.encode()) <= 7:
        return None
    return int.from_bytes(text.encode(), "little")


def isotope_fields(abundances, isotopes):
    out = [len(isotopes)]
    for key, iso in isotopes.items():
        m = re.fullmatch(r"(\d+)(\D+)", str(key))
        ok = int(bool(m) and iso.AX == key and key in abundances and len(abundances) == len(isotopes))
        out += [int(m.group(1)) if m else 0, packed(m.group(2)) if m else None, iso.amu, abundances.get(key), ok]
    return out


ABUNDANCE = {0: "", 1: "1", 2: "0.25(3)"}


def paragraph(z, symbol, a, mass, abundance, extra=True):
    lines = [
        "Atomic Number = %d" % z,
        "Atomic Symbol = %s" % symbol,
        "Mass Number = %d" % a,
        "Relative Atomic Mass = %s" % mass,
        "Isotopic Composition = %s" % abundance,
    ]
    if extra:
        lines += ["Standard Atomic Weight = [%s]" % a, "Notes = g,m,r", ""]
    return lines


def model_replay(ctx, path):
    for i, s in enumerate(ctx.tlc(ctx.pick("reader_mcq", "reader_mct"))):
        st = parse_tla(s)
        if not st["done"]:
            continue
        lines = []
        for p in st["file"]:
            lines += paragraph(p["z"], SYMBOLS[p["z"]], p["a"], "%d.5(2)" % p["a"], ABUNDANCE[p["ab"]])
        with open(path, "w") as f:
            f.write("\n".join(lines))
        want = {"%d%s" % (p["a"], SYMBOLS[p["z"]]): (p["a"] + 0.5, {0: 0.0, 1: 1.0, 2: 0.25}[p["ab"]]) for p in st["out"]}
        with guard(ctx, {"model state": st}):
            reader = NISTElementDataReader(path)
            abundances, isotopes = reader.read_nist_element_data(st["target"])
            got = {k: (isotopes[k].amu, abundances[k]) for k in isotopes}
            symbols = reader.read_nist_element_symbols()
            ctx.traces += 1
            if got != want or set(abundances) != set(want):
                ctx.violation("isotopes differ from the model", {"file": st["file"], "target": st["target"], "model": want, "library": got})
            if symbols != {p["z"]: SYMBOLS[p["z"]] for p in st["file"]}:
                ctx.violation("symbols differ from the model", {"file": st["file"], "library": symbols})
            if i % 3000 == 11:
                ctx.samples.append({"file": st["file"], "target": st["target"], "isotopes": got})


def natural(ctx, groups):
    """The tables of the library against the reference tables."""
    nist, current = {}, 0
    for line in lines_of("elements.txt"):
        m = re.match(r"Atomic Number = (\d+)", line)
        if m:
            current = int(m.group(1))
        if line and not line.startswith("#"):
            nist.setdefault(current, []).append(line)
    dens = [l for l in lines_of("element_densities.txt") if l and not l.startswith("#")]
    for z0 in range(1, 119, 8):
        zs = range(z0, min(z0 + 8, 119))
        g = [Event([0, 1.0])]
        for z in zs:
            g += [Event([1] + line_fields(l), dict(line=l)) for l in nist[z]]
        g += [Event([2] + line_fields(l.rstrip()), dict(line=l)) for l in dens]
        with guard(ctx, dict(elements=list(zs))):
            for z in zs:
                g.append(Event([3, z, packed(X.get(z))], dict(call="X", Z=z, result=X.get(z))))
                e = natural_elements[SYMBOLS[z]]
                info = dict(element=SYMBOLS[z])
                if e.Z != z or e.X != SYMBOLS[z]:
                    ctx.violation("element has a wrong proton number or symbol", dict(info, Z=e.Z, X=e.X))
                g.append(
                    Event([4, z] + isotope_fields(e.abundances, e.isotopes), dict(info, isotopes={k: (i.amu, e.abundances.get(k)) for k, i in e.isotopes.items()}))
                )
                g.append(Event([5, z, e.amu], dict(info, amu=flat(e.amu))))
                g.append(Event([6, packed(SYMBOLS[z]), e.density], dict(info, density=e.density)))
        groups.append(g)
    if set(natural_elements) != set(SYMBOLS[1:]) or set(X) != set(range(1, 119)):
        ctx.violation("the natural elements are not the elements from 1 to 118", {"elements": sorted(map(str, natural_elements))})


SIMILAR = "H He Hf Ho Hg C Ca Cd Ce Co Cu Cs S Si Se Sn Sr N Na Ne Ni O Os P Pb Po B Be Ba Br I In Ir F Fe K Kr U V W Y Yb".split()


def decimal(rng, lo, hi, digits):
    v = rng.uniform(lo, hi)
    t = "%.*f" % (int(rng.integers(0, digits)), v)
    return t


def generated_nist(ctx, rng, groups, path):
    zs = sorted(int(z) for z in rng.choice(np.arange(1, 130), int(rng.integers(1, 6)), replace=False))
    lines = []
    for z in zs:
        symbol = str(rng.choice(SIMILAR))
        a0 = int(rng.integers(1, 280))
        for j in range(int(rng.integers(1, 6))):
            a0 += int(rng.integers(1, 4))
            r = rng.random()
            mass = decimal(rng, 1, 300, 12 if rng.random() < 0.8 else 30) + ("(%d)" % rng.integers(1, 99) if r < 0.5 else "(%d#)" % rng.integers(1, 99) if r < 0.7 else "")
            ab = str(rng.choice(["", "1", "0.5", "0.0123(45)", "1(0)", "0.999885(70)", "0", decimal(rng, 0, 1, 9), decimal(rng, 0, 1, 30), decimal(rng, 0, 1, 9) + "(7)"]))
            own = symbol if rng.random() < 0.9 else str(rng.choice(SIMILAR))
            lines += paragraph(z, own, a0, mass, ab)
    cut = rng.random()
    if cut < 0.3:
        # the file ends with the composition, with or without a final newline
        while not lines[-1].startswith("Isotopic"):
            lines.pop()
    text = "\n".join(lines) + ("\n" if cut > 0.15 else "")
    if rng.random() < 0.3:
        text = "# comment\n#\n" + text
    with open(path, "w") as f:
        f.write(text)
    g = [Event([0, 1.0])] + [Event([1] + line_fields(l), dict(line=l)) for l in text.split("\n")]
    info = dict(file=text[:1500])
    with guard(ctx, info):
        reader = NISTElementDataReader(path)
        symbols = reader.read_nist_element_symbols()
        g.append(Event([7, len(symbols)] + sorted(symbols), dict(info, call="symbols", result=symbols)))
        for z in zs + [int(v) for v in rng.integers(1, 131, 2)]:
            g.append(Event([3, z, packed(symbols.get(z))], dict(info, call="symbol", Z=z, result=symbols.get(z))))
            abundances, isotopes = reader.read_nist_element_data(z)
            seen = {k: (i.amu, abundances.get(k)) for k, i in isotopes.items()}
            g.append(Event([4, z] + isotope_fields(abundances, isotopes), dict(info, call="isotopes", Z=z, result=seen)))
            e = Element(z, symbols.get(z, "Xx"), isotopes, abundances)
            g.append(Event([5, z, e.amu], dict(info, call="amu", Z=z, result=flat(e.amu))))
    groups.append(g)


def generated_density(ctx, rng, groups, path):
    symbols = [str(s) for s in rng.choice(SIMILAR, int(rng.integers(1, 12)), replace=False)]
    lines = ["# comment"] if rng.random() < 0.5 else []
    for s in symbols:
        v = str(rng.choice(["%.5e" % 10 ** rng.uniform(-5, 2), "2.", "0.534         ", "%.3f" % rng.uniform(0, 20), "11.35", "%.17e" % 10 ** rng.uniform(-9, 2), decimal(rng, 0, 20, 30)]))
        if "e" in v:
            v = v.replace("e-0", "e-")
        lines.append("%-2s%s%s" % (s, " " * int(rng.integers(1, 4) if rng.random() < 0.9 else rng.integers(4, 40)), v))
    text = "\n".join(lines) + ("\n" if rng.random() < 0.7 else "")
    with open(path, "w") as f:
        f.write(text)
    factor = float(rng.choice([1.0, 1e3, 0.5, 10 ** rng.uniform(-3, 3)]))
    g = [Event([0, factor])] + [Event([2] + line_fields(l.rstrip()), dict(line=l)) for l in text.split("\n") if l]
    info = dict(file=text, factor=factor)
    with guard(ctx, info):
        reader = Geant4DensityDataReader(path) if factor == 1.0 else Geant4DensityDataReader(path, lambda rho: factor * rho)
        for s in symbols + [str(v) for v in rng.choice(SIMILAR, 5)]:
            d = reader.read_density_data(s)
            g.append(Event([6, packed(s), d], dict(info, symbol=s, density=d)))
    groups.append(g)


def user_elements(ctx, rng, groups, n):
    g = []
    for _ in range(n):
        k = int(rng.integers(1, 7))
        masses = [float(v) for v in (rng.uniform(1, 250, k) if rng.random() < 0.8 else 10 ** rng.uniform(-9, 9, k))]
        abs_ = [float(v) for v in rng.uniform(0, 1, k)] if rng.random() < 0.7 else [0.0] * (k - 1) + [1.0]
        if rng.random() < 0.2:
            abs_ = [float(v) for v in 10 ** rng.uniform(-20, 3, k)]
        names = ["%dQ" % (i + 1) for i in range(k)]
        info = dict(masses=masses, abundances=abs_)
        with guard(ctx, info):
            abundances = {names[i]: abs_[i] for i in rng.permutation(k)}
            if rng.random() < 0.3:
                # more abundances than isotopes are permitted
                abundances["99Q"] = 0.5
            isotopes = {names[i]: Isotope(names[i], masses[i]) for i in range(k)}
            e = Element(99, "Q", isotopes, abundances, 3.5)
            fields = [v for pair in zip(masses, abs_) for v in pair]
            g.append(Event([8, k] + fields + [e.amu], dict(info, amu=flat(e.amu))))
            if e.density != 3.5 or e.isotopes is not isotopes and e.isotopes != isotopes or Element(99, "Q", isotopes, abundances).density is not None:
                ctx.violation("user-defined element does not keep its data", info)
    groups.append(g)


def check(ctx):
    rng = ctx.rng(12)
    path = os.path.join(ctx.scratch, "table.txt")
    model_replay(ctx, path)
    groups = []
    natural(ctx, groups)
    for _ in range(ctx.pick(120, 2000)):
        generated_nist(ctx, rng, groups, path)
    for _ in range(ctx.pick(120, 2000)):
        generated_density(ctx, rng, groups, path)
    user_elements(ctx, rng, groups, ctx.pick(100, 1000))
    canaries = []
    for kind, k, change in [(3, 2, lambda v: v + 1), (4, 5, lambda v: v * (1 + 1e-9)), (4, 3, lambda v: v + 1), (5, 2, lambda v: v * (1 + 1e-9)), (6, 2, lambda v: v * 1.001), (7, 1, lambda v: v - 1), (8, -1, lambda v: v + 1e-6)]:
        n = 0
        for g in groups:
            hits = [e for e in g if e.fields[0] == kind and len(e.fields) > k and e.fields[k]]
            if hits and n < 6:
                head = [e for e in g if e.fields[0] in (0, 1, 2)]
                j = k % len(hits[0].fields)
                canaries.append(head + [hits[0].corrupted(j, change(hits[0].fields[j]))])
                n += 1
    ctx.judge("elements_trace", groups, stateful=True, canaries=canaries)
