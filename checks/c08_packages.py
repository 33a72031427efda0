"""C08: without ROOT, matplotlib, scipy or numpy the rest works the same, and what needs them says so."""
import json
import os
import select
import subprocess
import sys

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require
from vlib import env
from checks import gen, nopackages

FACETS = Registry()
PACKAGES = ["ROOT", "matplotlib", "scipy", "numpy"]
SERVERS = {}
OPS = sorted(k for k in nopackages.OPS if not k.startswith("import "))
MODULES = sorted(k for k in nopackages.OPS if k.startswith("import "))
HERE = os.path.dirname(os.path.abspath(nopackages.__file__))


class Server(object):
    """A process without some packages, that runs one operation after another"""
    def __init__(self, blocked):
        import hypothesis
        import xboa.core._hitcore as core
        libdir = os.path.dirname(os.path.abspath(core.__file__))
        while not env.ext_map(libdir).get("xboa.core._hitcore"):
            libdir = os.path.dirname(libdir)
        name = ",".join(sorted(blocked)) or "-"
        self.where = os.path.abspath("without_" + name.replace(",", "_"))
        os.makedirs(self.where, exist_ok=True)
        self.err = open(self.where + ".err", "w+")
        self.process = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "nopackages.py"), libdir, os.path.dirname(os.path.dirname(hypothesis.__file__)), name],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=self.where)

    def ask(self, case):
        try:
            self.process.stdin.write(json.dumps(case) + "\n")
            self.process.stdin.flush()
        except OSError:
            pass
        ready = select.select([self.process.stdout], [], [], 120.)[0]
        line = self.process.stdout.readline() if ready else ""
        if not line:
            self.process.kill()
            self.process.wait()
            self.err.seek(0)
            raise Violation("no answer to %s: %s" % (case[0], self.err.read()[-1500:]))
        return json.loads(line)


def server(blocked):
    key = tuple(sorted(blocked))
    if key not in SERVERS or SERVERS[key].process.poll() is not None:
        SERVERS[key] = Server(key)
    return SERVERS[key]


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(b, (int, float)) and isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12
    return a == b


def spec():
    return {"op": st.one_of(st.sampled_from(OPS), st.sampled_from(OPS), st.sampled_from(MODULES)), "n": st.integers(0, 3), "beam": gen.beam_spec,
            "blocked": st.lists(st.sampled_from(PACKAGES), min_size=1, max_size=4, unique=True)}


@FACETS.add(strategy=lambda: st.fixed_dictionaries(spec()), quick=120, thorough=6000,
            rule="an operation gives, in a process in which some of ROOT, matplotlib, scipy and numpy can not be imported, "
                 "the result that it gives with all of them, if it does not need the missing ones; else ImportError (or "
                 "the same result; an error is the same error); every module is imported on the way; config reports what is there; non-trivial: the "
                 "operation does not need what is missing")
def missing(case, note):
    name, blocked = case["op"], set(case["blocked"])
    ask = [name, case["beam"], case["n"]]
    needs = set(nopackages.OPS[name][1])
    full = server(()).ask(ask)
    if "maus" in needs:
        require(full == ["ImportError"], "no MAUS here, but", full)
    else:
        require(full[0] in ("ok", "error"), name, "with all packages:", full)
    got = server(blocked).ask(ask)
    if name == "config_report":
        require(got[0] == "ok", got)
        return
    if got == ["ImportError"] and ("maus" in needs or needs & blocked):
        note.label("import error")
        return
    require(got[0] == full[0] and same(got[1], full[1]), name, "without", sorted(blocked), "gives", str(got)[:1500],
            "with all packages", str(full)[:500])
    note.nontrivial(not needs & blocked and got[0] == "ok")
