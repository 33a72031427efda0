"""T02: MultiTrack and the tracking processes give what tracking in this process gives."""
import os
import shutil
import sys
import time

from hypothesis import strategies as st

from vlib import env
from vlib.core import Registry, require
from checks import gen

FACETS = Registry()


# ---- division of the work, with stand-ins for the processes ----
class State(object):
    """What the stand-in processes did; the processes themselves are copied and pickled."""
    started = []
    polls = {}
    plan = []


def stand_in():
    from xboa.tracking.tracking_process import TrackingProcess

    class StandIn(TrackingProcess):
        def start(self):
            require(all(s is not self for s in State.started), "process started twice")
            State.started.append(self)
            self.number = len(State.started) - 1
            self.pid = 1000 + self.number

        def is_alive(self):
            polls, fails = State.plan[self.number]
            done = State.polls[self.number] = State.polls.get(self.number, 0) + 1
            if done > polls:
                self.exitcode = 1 if fails else 0
            return self.exitcode is None

        def get_return_value(self):
            if self.is_alive() or self.exitcode != 0:
                raise RuntimeError("no result")
            return self.run()

        def __reduce__(self):
            return (str, ("a stand-in",))

        def __deepcopy__(self, memo):
            new = StandIn.__new__(StandIn)
            new.__dict__.update(self.__dict__)
            return new

    return StandIn


class Recorder(object):
    """Tracking that says where each hit came from."""
    def track_one(self, hit):
        return [hit, ("end", hit)]

    def track_many(self, hits):
        return [self.track_one(h) for h in hits]


@st.composite
def divisions(draw):
    n = draw(st.integers(1, 7))
    plan = [(draw(st.integers(0, 6)), draw(st.integers(0, 5)) == 0) for _ in range(n)]
    return {"processes": n, "hits": draw(st.integers(0, 25)), "plan": plan,
            "again": draw(st.integers(0, 12)), "reads": draw(st.integers(0, 4)), "one": draw(st.booleans())}


@FACETS.add(strategy=divisions, quick=300, thorough=10000, hang=60,
            rule="MultiTrack starts one process per part; the parts differ in length by at most one, longer first, "
                 "and together are the hits in order; results read while processes run are those of the finished "
                 "ones, in order; track_many waits for all and leaves out those that failed; a second call starts "
                 "afresh; hits unchanged; non-trivial: more hits than processes, two or more processes")
def division(case, note):
    from xboa.tracking import MultiTrack
    n, hits = case["processes"], ["hit %d" % i for i in range(case["hits"])]
    keep = list(hits)
    directory = os.path.join(os.getcwd(), "t02")
    try:
        job = stand_in()(Recorder(), directory)
        multi = MultiTrack(n, job)
        State.started, State.polls, State.plan = [], {}, case["plan"] * 2
        jobs = multi.track_many_async(hits)
        require(len(jobs) == len(State.started) == n and multi.job_list == jobs, "%d jobs" % len(jobs))
        lengths = [len(hits) // n + (1 if i < len(hits) % n else 0) for i in range(n)]
        require([len(j.hit_list) for j in jobs] == lengths, "parts %r" % [len(j.hit_list) for j in jobs])
        require([h for j in jobs for h in j.hit_list] == keep and hits == keep, "hits lost or changed")
        require(multi.last == [], "result before any process was asked: %r" % multi.last)
        require(len(set(j.out_dir for j in jobs) | {job.out_dir}) == n + 1, "processes share a directory")
        result = dict((h, [h, ("end", h)]) for h in hits)

        def finished():
            return [result[h] for j, (_, fails) in zip(jobs, case["plan"]) if j.exitcode == 0 for h in j.hit_list]

        for _ in range(case["reads"]):
            got = multi.get_return_value()
            require(got == finished() and multi.last == got, "result %r of jobs %r" % (got, [j.exitcode for j in jobs]))
        again = ["second %d" % i for i in range(case["again"])]
        State.started, State.polls = [], {}
        if case["reads"] % 2:
            multi.track_many_async(again)
            require(multi.last == [], "result of the call before is kept: %r" % multi.last)
            State.started, State.polls = [], {}
        got = multi.track_many(again)
        second = multi.job_list
        require(len(second) == n and all(j.exitcode is not None for j in second), "did not wait")
        want = [[h, ("end", h)] for j, (_, fails) in zip(second, case["plan"]) if not fails for h in j.hit_list]
        require([h for j in second for h in j.hit_list] == again, "second hits lost")
        require(got == want and multi.last == want, "second result %r, want %r" % (got, want))
        if case["one"]:
            require(multi.track_one("single") == ["single", ("end", "single")], "track_one")
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    note.label("%d processes" % n, "a failure" if any(f for _, f in case["plan"]) else "no failure",
               "rest" if len(hits) % n else "even")
    note.nontrivial(1 < n < len(hits))


# ---- real processes ----
def matrices(scale):
    import numpy
    m = numpy.matrix(numpy.diag([float(i + scale) for i in range(6)]))
    zero = numpy.matrix(numpy.zeros([1, 6]))
    return [m, m * 2.0], [zero, zero + 1.0], zero


def quiet_path():
    """Put the tree's own xboa_tracking_process.py on the path, run by this python with this tree's xboa.

    (What an earlier build installed beside the python may be older than the tree.)
    """
    here = os.path.join(os.getcwd(), "t02_bin")
    script = os.path.join(here, "xboa_tracking_process.py")
    if not os.path.exists(script):
        finder = [f for f in sys.meta_path if isinstance(f, env._ExtFinder)][0]
        os.makedirs(here, exist_ok=True)
        source = os.path.join(env.REPO, "xboa", "tracking", "tracking_process", "xboa_tracking_process.py")
        with open(script, "w") as out:
            out.write("#!%s\nimport runpy, sys\nsys.dont_write_bytecode = True\nsys.path[0] = %r\n"
                      "from vlib import env\nsys.path[0] = env.REPO\n"
                      "sys.meta_path.insert(0, env._ExtFinder(%r))\nsys.argv[0] = %r\n"
                      "runpy.run_path(%r, run_name='__main__')\n"
                      % (sys.executable, env.VERIF, finder.mapping, source, source))
        os.chmod(script, 0o755)
    if os.environ["PATH"].split(":")[0] != here:
        os.environ["PATH"] = here + ":" + os.environ["PATH"]


def real_process(tracking):
    from xboa.tracking.tracking_process import ThisNodeProcess
    quiet_path()
    process = ThisNodeProcess(tracking)
    shutil.rmtree(process.out_dir, ignore_errors=True)
    process.tmp_dir = os.path.join(os.getcwd(), "t02_real")
    process.new_out_dir()
    return process


def numbers(lists):
    return [[[h[k] for k in gen.DOUBLES + gen.INTS] for h in hits] for hits in lists]


@st.composite
def histories(draw):
    ops = st.sampled_from(["start", "start", "join", "join", "value", "value", "alive", "kill", "terminate",
                           "short join", "hits", "unpickle"])
    first = draw(st.sampled_from([[], ["start"], ["start", "join"], ["start", "join", "hits"],
                                  ["start", "kill", "start"], ["unpickle", "start", "value", "join"]]))
    return {"ops": first + draw(st.lists(ops, min_size=2, max_size=9)), "slow": draw(st.booleans()),
            "hits": [draw(gen.particle()) for _ in range(draw(st.integers(0, 3)))]}


@FACETS.add(strategy=histories, quick=14, thorough=160, hang=300, scale=1,
            rule="ThisNodeProcess in any history of start, join, kill, terminate, is_alive, get_return_value, new "
                 "hits and unpickling: alive only between start and end, refuses to start twice or be killed before "
                 "it started, gives a value only when finished, the one that tracking here gives, after a kill none "
                 "or the one before; join returns in its time; non-trivial: two starts or a kill")
def process(case, note):
    from xboa.tracking import TimeoutTracking
    gen.clear_weights()
    slow = 120.0 if case["slow"] else 0.0
    tracking = TimeoutTracking(*(matrices(1) + (slow,)))
    hits = [gen.make_hit(h) for h in case["hits"]]
    job = real_process(tracking)
    state, values, kills, starts = "new", None, 0, 0
    want = numbers([tracking.track_one(h) for h in hits])
    try:
        job.set_hit_list(hits)
        for op in case["ops"]:
            if op == "start":
                if state == "running" and job.is_alive():
                    try:
                        job.start()
                    except RuntimeError:
                        continue
                    require(not slow, "started twice")
                else:
                    job.start()
                state, starts = "running", starts + 1
                require(isinstance(job.pid, int), "pid %r" % (job.pid,))
            elif op == "alive":
                if state != "running":
                    require(not job.is_alive(), "alive when %s" % state)
                elif slow:
                    require(job.is_alive(), "not alive when running")
            elif op == "short join":
                begin = time.time()
                job.join(0.2)
                require(time.time() - begin < 10, "join took %.1f s" % (time.time() - begin))
            elif op == "join":
                if state == "running" and slow:
                    continue
                job.join()
                require(not job.is_alive(), "alive after join")
                if state == "running":
                    require(job.exitcode == 0, "exit code %r" % (job.exitcode,))
                    state, values = "done", want
            elif op in ("kill", "terminate"):
                try:
                    getattr(job, op)()
                    require(starts, "%s before start" % op)
                except RuntimeError:
                    require(not starts, "%s refused" % op)
                    continue
                kills += 1
                require(not job.is_alive() and isinstance(job.exitcode, int), "alive after " + op)
                if state == "running":
                    state = "killed"
            elif op == "value":
                finished = state != "running" or not job.is_alive()
                try:
                    got = numbers(job.get_return_value())
                except RuntimeError:
                    require(state != "done", "no value after the end")
                    continue
                require(starts and (finished or not slow), "a value when %s" % state)
                require(got == want or (state == "killed" and got == values), "value %r, want %r" % (got, want))
            elif op == "hits":
                if state == "running":
                    continue
                hits = hits[::-1] + hits[:1]
                want = numbers([tracking.track_one(h) for h in hits])
                job.set_hit_list(hits)
                state = "new" if state == "new" else "killed"
            elif op == "unpickle":
                other = type(job).new_from_pickle(job.out_dir)
                other.tracking.timeout = 0.0
                require(numbers(other.run()) == want, "the pickled process tracks something else")
    finally:
        if job.is_alive():
            job.kill()
        shutil.rmtree(job.tmp_dir, ignore_errors=True)
    note.label(state, "slow" if slow else "fast")
    note.nontrivial(starts > 1 or (starts and kills))


@FACETS.add(strategy=lambda: st.fixed_dictionaries({"n": st.integers(1, 4), "hits": st.lists(gen.particle(), max_size=7)}),
            quick=4, thorough=40, hang=300, scale=2,
            rule="MultiTrack of real processes gives for each hit, in order, exactly what the tracking gives here; "
                 "files of the same names in the working directory are left alone; "
                 "non-trivial: two or more processes")
def real(case, note):
    from xboa.tracking import MultiTrack, TimeoutTracking
    from xboa.tracking.tracking_process import TrackingProcess
    gen.clear_weights()
    tracking = TimeoutTracking(*(matrices(2) + (0.0,)))
    hits = [gen.make_hit(h) for h in case["hits"]]
    want = numbers([tracking.track_one(h) for h in hits])
    bystander = os.path.join(os.getcwd(), TrackingProcess.pickle_sandwich)
    with open(bystander, "w") as fout:
        fout.write("not a result")
    job = real_process(tracking)
    try:
        multi = MultiTrack(case["n"], job)
        require(numbers(multi.track_many(hits)) == want, "tracked elsewhere differs")
        require(numbers(multi.get_return_value()) == want, "asked again")
        require(os.path.exists(bystander), "a file in the working directory was removed")
    finally:
        shutil.rmtree(job.tmp_dir, ignore_errors=True)
    note.nontrivial(case["n"] > 1)


# ---- batch processes, on a stand-in for the batch system ----
BSUB = """#!/bin/sh
cd "%(dir)s"
if [ "$1" = "-h" ]; then echo usage; exit 0; fi
n=$(( $(cat last) + 1 ))
echo $n > last
for arg in "$@"; do echo "$arg"; done > args.$n
echo PEND > status.$n
echo "Job <$n> is submitted to queue <$2>."
"""
BJOBS = """#!/bin/sh
cd "%(dir)s"
status=$(cat status.$2)
echo
echo "Job <$2>, User <someone>, Project <default>, Status <${status%% *}>, Queue <short>, Command <x>"
case "$status" in EXIT*) echo "Mon Jan 01 00:00:00: Exited with exit code ${status#EXIT }. The CPU time used is 0.1 seconds.";; esac
"""
BKILL = """#!/bin/sh
cd "%(dir)s"
echo "$1" >> killed
case "$(cat status.$1)" in PEND|RUN|WAIT) echo EXIT 130 > status.$1;; esac
echo "Job <$1> is being terminated"
"""


@st.composite
def batches(draw):
    ops = st.sampled_from(["start", "start", "run", "wait", "done", "done", "fail", "value", "value", "alive", "kill",
                           "terminate", "hits", "join"])
    first = draw(st.sampled_from([[], ["start"], ["start", "done"], ["start", "done", "value", "hits", "start"],
                                  ["start", "kill", "start"]]))
    return {"ops": first + draw(st.lists(ops, min_size=2, max_size=10)), "code": draw(st.integers(1, 255)),
            "hits": [draw(gen.particle()) for _ in range(draw(st.integers(0, 3)))], "bsub": draw(st.integers(0, 9)) > 0,
            "queue": draw(st.sampled_from(["short", "long-serial"])), "time": draw(st.sampled_from(["00:10", "24:00"])),
            "last": draw(st.sampled_from([0, 998, 10 ** 7]))}


@FACETS.add(strategy=batches, quick=30, thorough=1500, hang=300, scale=2,
            rule="BSubProcess in any history, on a stand-in for the batch system: refused without bsub; submits to the queue asked "
                 "for the time asked, with the directory of the process; pid is the number of the job; alive while the job waits or "
                 "runs; then the exit code of the job as an integer and the value that it left; never started twice or killed "
                 "before the start; kills that job only; non-trivial: two starts or a kill")
def batch(case, note):
    from xboa.tracking import MatrixTracking
    from xboa.tracking.tracking_process import BSubProcess
    import pickle
    gen.clear_weights()
    directory = os.path.join(os.getcwd(), "t02_batch")
    shutil.rmtree(directory, ignore_errors=True)
    os.makedirs(directory)
    path, scratch = os.environ["PATH"], BSubProcess.scratch_dir
    try:
        os.environ["PATH"] = directory
        tracking = MatrixTracking(*matrices(1))
        if not case["bsub"]:
            try:
                BSubProcess(tracking, case["queue"], case["time"])
            except ImportError:
                note.label("no bsub")
                return
            require(False, "made without bsub")
        os.environ["PATH"] = directory + ":" + path
        for name, text in ("bsub", BSUB), ("bjobs", BJOBS), ("bkill", BKILL):
            with open(os.path.join(directory, name), "w") as fout:
                fout.write(text % {"dir": directory})
            os.chmod(os.path.join(directory, name), 0o755)

        def store(name, text):
            with open(os.path.join(directory, name), "w") as fout:
                fout.write(text)

        store("last", "%d\n" % case["last"])
        store("killed", "")
        BSubProcess.scratch_dir = os.path.join(directory, "scratch")
        job = BSubProcess(tracking, case["queue"], case["time"])
        hits = [gen.make_hit(h) for h in case["hits"]]
        job.set_hit_list(hits)
        want = numbers([tracking.track_one(h) for h in hits])
        state, value, starts, kills, code = "new", None, 0, [], None
        for op in case["ops"]:
            number = case["last"] + starts
            alive = state in ("PEND", "RUN", "WAIT")
            if op == "start":
                try:
                    job.start()
                except RuntimeError:
                    require(alive, "not started when", state)
                    continue
                require(not alive, "started twice")
                starts += 1
                number += 1
                require(job.pid == number, "pid %r of job %d" % (job.pid, number))
                args = open(os.path.join(directory, "args.%d" % number)).read().split("\n")[:-1]
                require(args[:4] == ["-q", case["queue"], "-W", case["time"]], "asked for", args)
                require(args[4] == "-o" and args[6] == "-e" and os.path.dirname(args[5]) == os.path.dirname(args[7]) == job.out_dir and
                        args[5] != args[7], "logs", args)
                require(args[8] == job.run_executable and args[9:] == ["--out-dir", job.out_dir], "runs", args)
                state = "PEND"
            elif op in ("run", "wait"):
                if alive:
                    state = {"run": "RUN", "wait": "WAIT"}[op]
                    store("status.%d" % number, state)
            elif op == "done":
                if alive:
                    with open(os.path.join(job.out_dir, job.pickle_jar), "rb") as fin:
                        result = pickle.load(fin).run()
                    with open(os.path.join(job.out_dir, job.pickle_sandwich), "wb") as fout:
                        pickle.dump(result, fout)
                    state, value, code = "DONE", want, 0
                    store("status.%d" % number, state)
            elif op == "fail":
                if alive:
                    state, code = "EXIT", case["code"]
                    if os.path.exists(os.path.join(job.out_dir, job.pickle_sandwich)):
                        os.remove(os.path.join(job.out_dir, job.pickle_sandwich))
                    value = None
                    store("status.%d" % number, "EXIT %d" % code)
            elif op == "alive":
                require(job.is_alive() == alive, "alive", not alive, "when", state)
                if state in ("DONE", "EXIT"):
                    require(job.exitcode == code and isinstance(job.exitcode, int), "exit code %r of %r" % (job.exitcode, code))
            elif op == "join":
                if alive:
                    job.join(0.05)
                else:
                    job.join()
            elif op in ("kill", "terminate"):
                try:
                    getattr(job, op)()
                except RuntimeError:
                    require(not starts, op, "refused")
                    continue
                require(starts, op, "before start")
                kills.append(number)
                if alive:
                    state, code = "EXIT", 130
            elif op == "value":
                try:
                    got = numbers(job.get_return_value())
                except RuntimeError:
                    require(state != "DONE", "no value after the end")
                    continue
                require(state in ("DONE", "EXIT") and got == value, "value %r when %s, want %r" % (got, state, value))
            elif op == "hits":
                if alive:
                    continue
                hits = hits[::-1] + hits[:1]
                want = numbers([tracking.track_one(h) for h in hits])
                job.set_hit_list(hits)
        killed = [int(k) for k in open(os.path.join(directory, "killed")).read().split()]
        require(killed == kills, "killed", killed, "not", kills)
    finally:
        os.environ["PATH"], BSubProcess.scratch_dir = path, scratch
        shutil.rmtree(directory, ignore_errors=True)
    note.label(state)
    note.nontrivial(starts > 1 or (starts and kills))
