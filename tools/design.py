#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/props.py, the facets and tools/design_*.md."""
import glob
import importlib
import json
import os
import sys
import tempfile
import textwrap

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [TOP, os.path.join(TOP, "tools")]
sys.dont_write_bytecode = True
from vlib import env  # noqa: E402
env.install_hypothesis(tempfile.mkdtemp())
from props import PROPS  # noqa: E402


def wrap(text, first="", rest=""):
    return textwrap.fill(" ".join(text.split()), 118, initial_indent=first, subsequent_indent=rest)


def facets(pid):
    name, = glob.glob(os.path.join(TOP, "checks", pid.lower() + "_*.py"))
    return os.path.basename(name)[:-3], importlib.import_module("checks." + os.path.basename(name)[:-3]).FACETS


def main():
    with open(os.path.join(TOP, "tools", "design_head.md")) as f:
        out = [f.read()]
    out.append("## The properties\n")
    for p in PROPS:
        module, fs = facets(p["id"])
        out.append("### %s: %s\n" % (p["id"], p["title"]))
        out.append(wrap(p["statement"]) + "\n")
        out.append(wrap("Why tests can not settle it: " + p["why"]))
        out.append(wrap("By: " + p["technique"] + " (checks/%s.py). Over: " % module + p["text"] + ". " + p["note"]) + "\n")
        for f in fs:
            quick = "all %s cases" % "fixed" if f.exhaustive and not f.quick else "%d/%d cases" % (f.quick * f.scale, f.thorough)
            out.append(wrap("`%s` (%s%s): %s" % (f.name, quick, ", ASan and UBSan" if f.asan else "", f.rule), "* ", "  "))
        out.append("")
    out.append("## Planted bugs, and what catches them\n")
    for name in sorted(glob.glob(os.path.join(TOP, "seeded", "*", "meta.json"))):
        with open(name) as f:
            m = json.load(f)
        out.append(wrap("`%s` (%s): %s Needs: %s" % (os.path.basename(os.path.dirname(name)), m["property"], m["what_it_breaks"].rstrip(".") + ".",
                                                     m["needs"]), "* ", "  "))
    out.append("")
    with open(os.path.join(TOP, "tools", "seeded_notes.md")) as f:
        out.append(f.read())
    with open(os.path.join(TOP, "tools", "design_tail.md")) as f:
        out.append(f.read())
    with open(os.path.join(TOP, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
