"""Lines of text as event fields, and the reference tables in spec/data."""

import os
import re
from fractions import Fraction

from harness.core import SPEC

DATA = os.path.join(SPEC, "data")


def line_fields(text):
    """Seven characters per field, the first one in the lowest byte."""
    raw = text.encode("ascii")
    return [int.from_bytes(raw[i : i + 7], "little") for i in range(0, max(1, len(raw)), 7)]


def lines_of(name):
    with open(os.path.join(DATA, name)) as f:
        return f.read().split("\n")


def reference_masses():
    """Exact abundance-weighted mass by proton number, from the reference table."""
    out, z, mass = {}, None, None
    for line in lines_of("elements.txt"):
        m = re.match(r"(Atomic Number|Relative Atomic Mass|Isotopic Composition) = ([0-9.]*)", line)
        if not m:
            continue
        if m.group(1) == "Atomic Number":
            z = int(m.group(2))
        elif m.group(1) == "Relative Atomic Mass":
            mass = Fraction(m.group(2))
        else:
            out[z] = out.get(z, 0) + mass * Fraction(m.group(2) or 0)
    return out
