"""Writes MANIFEST.json from properties.jsonl (run by hand after a change of the list of properties)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "TLC: all expression histories of the small scope; replay of each of them; recorded evaluations of random expression trees judged by the Quint algebra.",
    "C02": "TLC: same state machine with sharing of operands; all earlier objects are observed again after each operation.",
    "C03": "TLC: box model with all limits and sizes; recorded grids of all cross sections judged by the specification.",
    "C04": "TLC: box model; recorded probability grids judged with the distribution functions defined in Quint (256-bit fixed point).",
    "C05": "TLC: box model; recorded coverage intervals and warnings judged with the distribution functions defined in Quint.",
    "C06": "TLC: all small level schemes, exact rational expectations replayed; recorded resonances judged by the specification.",
    "C07": "TLC: configurations of parameters; values, integrals and shapes judged with the definitions in Quint.",
    "C08": "TLC: configurations of parameters; cdf/ppf round trips judged with the definitions in Quint.",
    "C09": "TLC: grid of thermal parameters with exact scaling relations; Doppler widths, Debye integrals and tables judged by the specification.",
    "C10": "TLC: exact rational Compton kinematics; all differential cross sections judged with the formulas in Quint.",
    "C11": "TLC: all small tables and look-ups; log-log interpolation and parsing of all 92 tables judged by the specification, which has its own copy of the data.",
    "C12": "TLC: model of the file reader; all elements parsed by the specification from its own copy of the data.",
    "C13": "TLC: all small grids, values and refinements; recorded sums judged by the specification.",
    "C14": "TLC: all small partitions of monomials; recorded integrals judged with exact antiderivatives in Quint.",
    "C15": "TLC: all short histories of creation, query and overwriting; replay in fresh processes; answers judged by a memo machine.",
    "C16": "TLC: all small combinations of reactions, grids and refinements; Darboux sums and integrals on real grids judged with the line shapes defined in Quint.",
    "C17": "TLC: all short histories of isotopes, levels and elements, the shared default is refuted; recorded data and recoil energies judged by the specification.",
    "C18": "TLC: all short programs of array operations on two arguments with broadcasting; replay with all functions; results of longer programs judged by the specification.",
    "C19": "TLC: all small densities with all limits, coverages and sizes, exact rational expectations replayed with user-defined distributions; recorded values, grids and intervals judged by the specification.",
}
NOTES.update(json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {})

checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    cmd = "/opt/venv/bin/python check.py " + p
    checks.append(
        {
            "property": p,
            "quick_cmd": cmd,
            "thorough_cmd": cmd,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "Quint specification, TLC small-scope enumeration, replay into the code, trace validation",
            "level": "model_checking",
            "level_note": NOTES[p],
        }
    )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. No hooks: all observations use the public interface."}, f, indent=1)
    f.write("\n")
