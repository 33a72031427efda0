"""Plant bugs and measure the checks against them (development tool, not a check).

seed.py make DIR            DIR holds edits.py (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)]) and demo.py;
                            makes /verif/seeded/<ID> if tests pass and demo tells the trees apart
seed.py try [ID...]         runs the check of each planted bug with the bug in place; prints caught or missed
Everything happens in copies of /repo bound over /repo inside a private mount namespace.
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# exit 0: behaves; nonzero: broken.  Everything is done in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$scratch" && PYTHONPATH=/repo MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def inside(tree, command, timeout=900, work=None):
    """Run the command with the tree in the place of /repo."""
    script = "mount --bind %s /repo && " % tree
    if work:
        os.makedirs(work, exist_ok=True)
        script += "mkdir -p /opt/vp/work && mount --bind %s /opt/vp/work; " % work
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script + command], text=True, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout


def copy_tree(base):
    tree = os.path.join(base, "repo")
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    return tree


def make(folder):
    spec = runpy.run_path(os.path.join(folder, "edits.py"))
    base = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = copy_tree(base)
        for name, old, new in spec["EDITS"]:
            path = os.path.join(tree, name)
            text = open(path, newline="").read()
            if text.count(old) != 1:
                return "%s: %d matches of %r in %s" % (spec["ID"], text.count(old), old, name)
            open(path, "w", newline="").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", tree, "diff"], stdout=subprocess.PIPE, check=True).stdout
        out = os.path.join(base, "out")
        os.mkdir(out)
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.sh", "w").write(DEMO_SH)
        shutil.copy(os.path.join(folder, "demo.py"), out + "/demo.py")
        json.dump({"property": spec["PROPERTY"], "needs": " ".join(spec["NEEDS"].split()),
                   "what_it_breaks": " ".join(spec["BREAKS"].split())}, open(out + "/meta.json", "w"), indent=1)
        rc, text = inside(tree, "bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash %s/demo.sh" % out)
        if rc == 0:
            return "%s: the demo passes with the bug: %s" % (spec["ID"], text)
        shown = text.strip().split("\n")[-1]
        p = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            return "%s: the demo fails on the clean tree: %s" % (spec["ID"], p.stdout)
        rc, text = inside(tree, "bash /opt/vp/test.sh %s/res.json" % base, work=base + "/work")
        lost = STABLE - set(json.load(open(base + "/res.json"))["passed"])
        if lost:
            return "%s: tests notice: %s" % (spec["ID"], sorted(lost))
        final = os.path.join(SEEDED, spec["ID"])
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(out, final)
        return "%s: made (%s)" % (spec["ID"], shown[:150])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def attempt(name):
    folder = os.path.join(SEEDED, name)
    prop = json.load(open(folder + "/meta.json"))["property"]
    base = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = copy_tree(base)
        verif = base + "/verif"
        subprocess.run(["cp", "-a", VERIF, verif], check=True)
        subprocess.run(["git", "-C", tree, "apply", folder + "/patch.diff"], check=True)
        rc, text = inside(tree, "cd %s && python3 run.py %s" % (verif, prop))
        facets = [l.split()[0] for l in text.split("\n") if " violation " in l]
        return "%-28s %s %-9s %s" % (name, prop, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc),
                                     " ".join(facets) if rc in (0, 1) else text[-500:])
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        for folder in sys.argv[2:]:
            print(make(folder.rstrip("/")), flush=True)
    else:
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("SEED_JOBS", "2"))) as pool:
            for line in pool.map(attempt, names):
                print(line, flush=True)
