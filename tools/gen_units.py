"""Writes UNITS.md: every contract unit and run-time contract of every check."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc import harness  # noqa: E402

harness.setup_paths()


def cell(x):
    return str(x).replace("|", "\\|").replace("\n", " ")


def main():
    out = ["# Contract units", "",
           "Generated by `tools/gen_units.py`; do not edit.  `proof`: every obligation is discharged",
           "for all inputs meeting the precondition; `bounded-size`: all values, stated sizes only.", ""]
    for i in range(1, 1 + len([f for f in os.listdir(os.path.join(HERE, "pyvc", "checks")) if f[:1] == "c" and f[1:3].isdigit()])):
        pid = "C%02d" % i
        m = importlib.import_module("pyvc.checks.c%02d" % i)
        out += ["## " + pid, "", "| unit | kind | functions under contract | bound |", "|---|---|---|---|"]
        notes = []
        for u in m.UNITS:
            out.append("| %s | %s | %s | %s |" % (
                cell(u.name), u.kind, cell(", ".join(u.functions)),
                cell(u.bounds) if u.kind != "proof" else ""))
            for a in (u.assumptions or []):
                if a not in notes:
                    notes.append(a)
        if notes:
            out += ["", "Assumptions:"] + ["* " + cell(a) for a in notes]
        if m.BOUNDED:
            out += ["", "Run-time contracts (bounded, never counted as proved):"]
            for b in m.BOUNDED:
                out.append("* %s: %s [%s]" % (cell(b.name), cell(b.rule), cell(", ".join(b.functions))))
        out.append("")
    with open(os.path.join(HERE, "UNITS.md"), "w") as f:
        f.write("\n".join(out))


main()
