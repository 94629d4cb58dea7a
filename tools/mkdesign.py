"""Write DESIGN.md from the texts beside this file, the property modules and seeded/ (python3-vt tools/mkdesign.py)."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)


def wrap(t):
    return "\n".join(textwrap.wrap(t, 115, break_long_words=False, break_on_hyphens=False))


def main():
    out = open(os.path.join(HERE, "design_head.md")).read().rstrip() + "\n\n"
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("pbt.props." + p["id"].lower())
        out += "### %s %s\n\n" % (p["id"], p["title"])
        out += wrap("Generated: " + m.RULE + ".") + "\n"
        if getattr(m, "ASSUMPTIONS", None):
            out += wrap("Assumed: " + "; ".join(m.ASSUMPTIONS) + ".") + "\n"
        out += wrap("Cases: %d quick, %d thorough%s." % (m.BUDGET["quick"], m.BUDGET["thorough"],
                    " besides the enumerated ones" if hasattr(m, "enumerate_cases") else "")) + "\n\n"
    tail = open(os.path.join(HERE, "design_tail.md")).read()
    fixed = sum('"fixed"' in l for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")))
    out += tail.replace("NFIX", str(fixed)).rstrip() + "\n\n"
    out += "## Planted bugs\n\n" + open(os.path.join(HERE, "design_bugs.md")).read().rstrip() + "\n\n"
    out += "| change | property | what it needs to show | caught by |\n|---|---|---|---|\n"
    missed = dict(l.split(None, 1) for l in open(os.path.join(HERE, "missed.txt"))) if os.path.exists(os.path.join(HERE, "missed.txt")) else {}
    for d in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        meta = json.load(open(os.path.join(VERIF, "seeded", d, "meta.json")))
        out += "| %s | %s | %s | %s |\n" % (d, meta["property"], meta["needs"].replace("|", "\\|"), missed.get(d, meta["property"] + " quick").strip())
    open(os.path.join(VERIF, "DESIGN.md"), "w").write(out)


main()
