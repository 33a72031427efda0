"""Run one facet in this process (started by vlib.runner)."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback


class BudgetHit(KeyboardInterrupt):
    """Out of time: stop generating (inconclusive beyond this point)."""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--module", required=True)
    ap.add_argument("--facet", required=True)
    ap.add_argument("--libdir", required=True)
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--budget", type=float, default=1e9)
    ap.add_argument("--isolate", action="store_true", help="run each case in a fork")
    ap.add_argument("--replay")
    args = ap.parse_args()

    from vlib import env
    result = {"facet": args.facet, "status": "error", "error": "", "evaluations": 0,
              "nontrivial": 0, "distinct": 0, "labels": {}, "samples": [], "case": None,
              "rule": ""}
    t_start = time.time()

    def finish():
        result["wall_s"] = time.time() - t_start
        tmp = args.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(result, f)
        os.rename(tmp, args.out)

    try:
        env.install_hypothesis(args.scratch)
        env.install_xboa(args.libdir)
        os.makedirs(os.path.join(args.scratch, "cwd"), exist_ok=True)
        os.chdir(os.path.join(args.scratch, "cwd"))
        module = importlib.import_module("checks." + args.module)
        facet = [f for f in module.FACETS if f.name == args.facet][0]
        result["rule"] = facet.rule
        if facet.setup:
            facet.setup()
    except BaseException:
        result["error"] = traceback.format_exc()
        finish()
        sys.exit(2)

    from vlib.core import Note, Violation, case_hash
    case_file = args.out + ".case"
    current = open(case_file, "w")
    state = {"failing": None, "error": "", "t_fail": None}
    nontrivial_seen, distinct_seen = set(), set()

    def record_current(case):
        text = json.dumps(case)
        current.seek(0)
        current.write(text)
        current.truncate()
        current.flush()
        os.utime(case_file)

    def run_case(case):
        record_current(case)
        note = Note()
        if args.isolate:
            _run_forked(facet, case)
        else:
            facet.check(case, note)
        return note

    def account(case, note):
        result["evaluations"] += 1
        h = case_hash(case)
        distinct_seen.add(h)
        for name in note.labels:
            result["labels"][name] = result["labels"].get(name, 0) + 1
        if note.is_nontrivial and h not in nontrivial_seen:
            nontrivial_seen.add(h)
            n = len(nontrivial_seen)
            if n in (1, 7, 30, 100):
                text = json.dumps(case)
                result["samples"].append(case if len(text) < 1500 else text[:1500] + "...")

    def one(case):
        case = json.loads(json.dumps(case))  # exactly what a replay will see
        if state["t_fail"] is None and time.time() - t_start > args.budget:
            result["budget_hit"] = True
            raise BudgetHit()
        try:
            note = run_case(case)
        except env.HarnessError:
            raise
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as exc:
            if type(exc).__module__.startswith("hypothesis"):
                raise
            if state["t_fail"] is None:
                state["t_fail"] = time.time()
            state["failing"] = case
            state["error"] = "".join(traceback.format_exception(exc)[-6:])[-3000:]
            if isinstance(exc, Exception):
                raise
            raise Violation("raised %r" % exc)
        if state["t_fail"] is None:
            account(case, note)

    status = "ok"
    try:
        if args.replay:
            with open(args.replay) as f:
                one(json.load(f)["case"])
        else:
            examples = facet.examples() if callable(facet.examples) else facet.examples
            for case in examples:
                one(case)
            if facet.strategy is not None:
                _hypothesis_run(facet, one, env)
            elif facet.exhaustive:
                result["exhaustive"] = True
    except BudgetHit:
        pass
    except BaseException:
        if state["failing"] is not None:
            status = "violation"
        else:
            status = "error"
            result["error"] = traceback.format_exc()[-4000:]
    result["status"] = status
    if status == "violation":
        result["case"] = state["failing"]
        result["error"] = state["error"]
    result["nontrivial"] = len(nontrivial_seen)
    result["distinct"] = len(distinct_seen)
    finish()
    sys.stdout.flush()
    os._exit({"ok": 0, "violation": 1, "error": 2}[status])


def _hypothesis_run(facet, one, env):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    n = facet.thorough if env.tier() == "thorough" else facet.quick * facet.scale
    strategy = facet.strategy() if callable(facet.strategy) else facet.strategy

    @hypothesis.seed(env.seed())
    @settings(max_examples=n, deadline=None, database=None, print_blob=False,
              report_multiple_bugs=False, derandomize=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                     HealthCheck.large_base_example])
    @given(strategy)
    def test(case):
        one(case)
    test()


def _run_forked(facet, case):
    """Run the case in a forked process so that a crash becomes an exception."""
    from vlib.core import Note, Violation
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            facet.check(case, Note())
        except BaseException:
            code = 1
            try:
                os.write(w, traceback.format_exc()[-1500:].encode())
            except Exception:
                pass
        os._exit(code)
    os.close(w)
    t0 = time.time()
    text = b""
    status = None
    while True:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if time.time() - t0 > facet.hang:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            raise Violation("case did not finish in %g s" % facet.hang)
        time.sleep(0.0005)
    while True:
        block = os.read(r, 65536)
        if not block:
            break
        text += block
    os.close(r)
    if os.WIFSIGNALED(status):
        raise Violation("process killed by signal %d" % os.WTERMSIG(status))
    if os.WEXITSTATUS(status):
        raise Violation("case failed: " + text.decode(errors="replace"))


if __name__ == "__main__":
    main()
