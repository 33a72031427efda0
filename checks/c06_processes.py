"""C06: process_list returns every result in order; subprocesses run and can be ended."""
import os
import subprocess
import sys
import time

from hypothesis import strategies as st

from vlib.core import Registry, require

FACETS = Registry()


class Odd(Exception):
    """an exception only this module knows"""


def work(kind, value, delay):
    time.sleep(delay / 1000.0)
    if kind == "value":
        return value
    if kind == "pair":
        return [value, {"v": (value, None)}]
    if kind == "none":
        return None
    if kind == "odd":
        raise Odd(value)
    if kind == "key":
        raise KeyError(value)
    if kind == "exit":
        raise SystemExit(value)
    if kind == "given":
        return ValueError(value)
    if kind == "pid":
        return os.getpid()
    if kind == "lambda":
        return lambda: value
    raise RuntimeError(kind)


def expected(kind, value, got):
    if kind in ("value", "none"):
        return got == (value if kind == "value" else None) and type(got) is type(value if kind == "value" else None)
    if kind == "pair":
        return got == [value, {"v": (value, None)}]
    if kind == "lambda":
        return isinstance(got, Exception)
    if kind == "pid":
        return isinstance(got, int) and got != os.getpid()
    return type(got) is {"odd": Odd, "key": KeyError, "exit": SystemExit, "given": ValueError}[kind] and got.args == (value,)


KINDS = ["value", "value", "value", "pair", "none", "odd", "key", "exit", "given", "pid", "lambda"]


def calls():
    one = st.tuples(st.sampled_from(KINDS), st.integers(-100, 100), st.sampled_from([0, 0, 1, 5, 20]))
    return st.one_of(st.lists(one, max_size=12), st.lists(one, min_size=11, max_size=30))


@FACETS.add(strategy=lambda: st.tuples(calls(), st.integers(1, 6)),
            quick=40, thorough=600, hang=100, scale=1,
            rule="process_list over calls that return values, exceptions or None, or raise (SystemExit and results "
                 "that cannot be sent included), of uneven length, in 1 to 6 processes: one entry per call, in the "
                 "order of the calls, holding its value or its exception; the list of arguments is unchanged and no "
                 "more than the processes allowed run; non-trivial: more calls than processes, some raising")
def pooled(case, note):
    import xboa.common as Common
    calls, n = case
    args = [tuple(c) for c in calls]
    got = Common.process_list(work, args, n)
    require(args == [tuple(c) for c in calls], "arguments changed")
    require(isinstance(got, list) and len(got) == len(calls), "results", len(got), "of", len(calls))
    for i, (kind, value, delay) in enumerate(calls):
        require(expected(kind, value, got[i]), "call", i, calls[i], "gave", repr(got[i]))
    pids = {g for g, c in zip(got, calls) if c[0] == "pid"}
    require(len(pids) <= n, "processes", len(pids), "allowed", n)
    note.label("%d processes" % n, "more than ten" if len(calls) > 10 else "few")
    note.nontrivial(len(calls) > n and any(c[0] in ("odd", "key", "exit") for c in calls))


def sleeper(path, delay):
    time.sleep(delay / 1000.0)
    with open(path, "w") as f:
        f.write("%d" % os.getpid())


@FACETS.add(strategy=lambda: st.lists(st.sampled_from([0, 0, 10, 60000]), min_size=1, max_size=5),
            quick=15, thorough=200, hang=100, scale=1,
            rule="each subprocess runs its function with its arguments in another process; "
                 "kill_all_subprocesses ends all that still run and may be called again; non-trivial: some finished, "
                 "some still running")
def subprocesses(case, note):
    import xboa.common as Common
    for i in range(len(case)):
        if os.path.exists("out%d" % i):
            os.remove("out%d" % i)
    procs = [Common.subprocess(sleeper, ("out%d" % i, d)) for i, d in enumerate(case)]
    for i, d in enumerate(case):
        if d < 1000:
            procs[i].join(60)
            require(open("out%d" % i).read() == str(procs[i].pid), "subprocess", i, "did not do its work")
            require(procs[i].pid != os.getpid(), "same process")
        else:
            require(procs[i].is_alive(), "subprocess", i, "ended early")
    Common.kill_all_subprocesses()
    for i, d in enumerate(case):
        procs[i].join(30)
        require(not procs[i].is_alive(), "subprocess", i, "still runs")
        require(d < 1000 or not os.path.exists("out%d" % i), "subprocess", i, "was not ended")
    Common.kill_all_subprocesses()
    note.nontrivial(len(set(d > 1000 for d in case)) > 1)


SCRIPT = """
import sys, time
sys.path.insert(0, %r)
from vlib import env
env.install_xboa(%r)
import xboa.common as Common

def sleeper(path, delay):
    time.sleep(delay / 1000.0)
    with open(path, "w") as f:
        f.write("done")
if %r is not None:
    from xboa.common import _common
    Common.kill_subprocesses_at_exit = _common.kill_subprocesses_at_exit = %r
procs = [Common.subprocess(sleeper, ("left%%d" %% i, %d)) for i in range(%d)]
print(" ".join(str(p.pid) for p in procs))
"""


def running(pid):
    try:
        with open("/proc/%s/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


@FACETS.add(strategy=lambda: st.tuples(st.sampled_from([None, None, True, False]), st.integers(1, 3)),
            quick=6, thorough=40, hang=100, scale=2,
            rule="a script that ends while its subprocesses run takes them with it, unless "
                 "kill_subprocesses_at_exit is off, when they finish; non-trivial: all")
def at_exit(case, note):
    from vlib import env
    flag, n = case
    for i in range(n):
        if os.path.exists("left%d" % i):
            os.remove("left%d" % i)
    import xboa.core._hitcore as h
    script = SCRIPT % (env.VERIF, os.path.dirname(h.__file__), flag, flag, 300 if flag is False else 70000, n)
    proc = subprocess.run([sys.executable, "-c", script], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=65)
    require(proc.returncode == 0, "script failed", proc.stderr[-500:])
    pids = proc.stdout.split()[-n:]
    if flag is False:
        require(all(os.path.exists("left%d" % i) for i in range(n)), "subprocesses were ended")
    else:
        for k in range(200):
            if not any(running(p) for p in pids):
                break
            time.sleep(0.05)
        require(not any(running(p) for p in pids), "subprocesses still run")
        require(not any(os.path.exists("left%d" % i) for i in range(n)), "subprocesses were waited for")
    note.label(str(flag))
    note.nontrivial()
