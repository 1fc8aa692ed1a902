#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json
import os

TECH = "symbolic execution of the crate's LLVM IR (layouts case-split, unit values / bytes symbolic), z3 decides each assertion on every path; counterexamples replayed natively"
M = {
    "C01": ("checks.c01 C01", "digit values symbolic for sampled text shapes"),
    "C02": ("checks.c01 C02", "all byte strings up to a small length, longer ones by template"),
    "C03": ("checks.c03 C03", "all unit values for each layout and requested scale swept"),
    "C04": ("checks.c03 C04", "all unit values for each layout swept"),
    "C05": ("checks.c05", "every pair of layouts, all unit values and digit counts"),
    "C06": ("checks.c06", "layout pairs that can hold equal values, all unit values"),
    "C07": ("checks.c07 C07", "every pair of layouts, all unit values"),
    "C08": ("checks.c07 C08", "every pair of layouts, all unit values"),
    "C09": ("checks.c09", "every pair of layouts, all unit values of both operands; unit products opaque"),
    "C10": ("checks.c10 C10", "symbolic dividends; divisors of one unit symbolic, of longer ones the highest or the lower units, others concrete (edge and seeded)"),
    "C11": ("checks.c10 C11", "symbolic dividends; divisors of one unit symbolic, of longer ones the highest or the lower units, others concrete (edge and seeded)"),
    "C12": ("checks.c12 C12", "every layout and rounding position, all unit values"),
    "C13": ("checks.c12 C13", "every layout and rounding position, all unit values"),
    "C14": ("checks.c14 C14", "all 2^64 integers; every layout, all unit values"),
    "C15": ("checks.c14 C15", "all 2^64 integers; every layout, all unit values"),
    "C16": ("checks.c16", "one step of every operation from any well-formed decimal, within the bounds of that operation's own check"),
    "C17": ("checks.c17", "any prior content of the result; layouts sampled, unit values symbolic"),
    "C18": ("checks.c18", "layouts sampled, unit values symbolic"),
    "C19": ("checks.c19", "layout pairs swept, unit values symbolic, products opaque"),
    "C20": ("checks.c20", "every zero layout against every dividend layout, unit values symbolic"),
    "C21": ("checks.c21", "every layout, all unit values and digit counts"),
}
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for pid, (mod, note) in sorted(M.items()):
    f = os.path.join(ROOT, "checks", mod.split()[0].split(".")[1] + ".py")
    if not os.path.exists(f):
        continue
    checks.append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3-vt -m " + mod, "thorough_cmd": "VERIF_TIER=thorough python3-vt -m " + mod,
                   "technique": TECH, "level": "model_checking", "level_note": note + "; exact bounds in the evidence file and DESIGN.md"})
done = {c["property"] for c in checks}
json.dump({"version": 1, "setup_cmd": "python3-vt -m engine.build", "checks": checks,
           "not_applicable": [{"property": p, "reason": "check still being built"} for p in sorted(M) if p not in done]},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
