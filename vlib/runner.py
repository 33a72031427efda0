"""run.py <ID> [--tier quick|thorough] [--facet NAME] [--replay FILE]

Builds the extensions, runs each facet of the property in its own process,
watches for crashes and hangs, writes evidence/<ID>.json, prints one
`VIOLATION property=<id> replay=<path>` line per failing facet.
Exit 0: held; 1: violated; 2: the machinery failed.
"""
import argparse
import concurrent.futures
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib import env
from vlib.core import case_hash


def module_of(prop):
    names = [f[:-3] for f in sorted(os.listdir(os.path.join(env.VERIF, "checks")))
             if f.lower().startswith(prop.lower() + "_") and f.endswith(".py")]
    if len(names) != 1:
        raise env.HarnessError("no single check module for %s: %s" % (prop, names))
    return names[0]


def child_env(scratch, tier, asan=False):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=env.VERIF,
             MPLCONFIGDIR=os.path.join(scratch, "mpl"), TMPDIR=scratch,
             VERIF_TIER=tier, VERIF_SEED=str(env.seed()), PYTHONUNBUFFERED="1",
             HOME=scratch, PYTHONWARNINGS="ignore")
    if asan:
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], text=True,
                             stdout=subprocess.PIPE).stdout.strip()
        cpp = subprocess.run(["g++", "-print-file-name=libstdc++.so"], text=True,
                             stdout=subprocess.PIPE).stdout.strip()
        e["LD_PRELOAD"] = lib + " " + cpp
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:" \
            "handle_segv=1:detect_odr_violation=0"
        e["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=1"
        e["PYTHONMALLOC"] = "malloc"
    return e


def run_facet(module, facet_name, libdir, base, tier, budget, cap, hang, asan, replay=None,
              isolate=False):
    scratch = tempfile.mkdtemp(prefix=facet_name + "-", dir=base)
    out = os.path.join(scratch, "result.json")
    cmd = [env.VENV_PYTHON, "-m", "vlib.child", "--module", module, "--facet", facet_name,
           "--libdir", libdir, "--scratch", scratch, "--out", out, "--budget", str(budget)]
    if replay:
        cmd += ["--replay", replay]
    if isolate:
        cmd += ["--isolate"]
    log = open(os.path.join(scratch, "log"), "wb")
    proc = subprocess.Popen(cmd, cwd=env.VERIF, env=child_env(scratch, tier, asan),
                            stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                            start_new_session=True)
    t0 = time.time()
    why = None
    case_file = out + ".case"
    while proc.poll() is None:
        time.sleep(0.05)
        now = time.time()
        if now - t0 > cap:
            why = "cap"
            break
        try:
            if now - os.path.getmtime(case_file) > hang and \
                    not os.path.exists(out):
                why = "hang"
                break
        except OSError:
            pass
    if why:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
    else:
        try:
            os.killpg(proc.pid, signal.SIGKILL)  # stray grandchildren
        except OSError:
            pass
    log.close()
    tail = open(os.path.join(scratch, "log"), "rb").read()[-4000:].decode(errors="replace")
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        if res["status"] == "error":
            res["error"] += "\n--- log ---\n" + tail[-1500:]
    else:
        res = {"facet": facet_name, "status": "error", "evaluations": 0, "nontrivial": 0,
               "distinct": 0, "labels": {}, "samples": [], "case": None, "rule": "",
               "wall_s": time.time() - t0}
        case = None
        try:
            with open(case_file) as f:
                case = json.load(f)
        except (OSError, ValueError):
            pass
        if why == "cap":
            res["error"] = "facet exceeded %g s" % cap
        elif why == "hang" and case is not None:
            res.update(status="violation", case=case, error="case did not finish in %g s" % hang)
        elif case is not None and proc.returncode is not None and \
                proc.returncode != 2 and proc.returncode != -signal.SIGKILL:
            res.update(status="violation", case=case, crashed=True,
                       error="process died (code %s) on this case\n%s" % (proc.returncode, tail))
        else:
            res["error"] = "no result (code %s)\n%s" % (proc.returncode, tail)
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("XBOA_VERIF_JOBS", "7")))
    ap.add_argument("--scale", type=float, default=None)
    args = ap.parse_args()
    prop = args.property
    if args.tier:
        os.environ["VERIF_TIER"] = args.tier
    tier = env.tier()
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="xboa-verif-")
    try:
        rc = _main(args, prop, tier, t0, base)
    except env.HarnessError as exc:
        print("HARNESS ERROR:", exc)
        rc = 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def _main(args, prop, tier, t0, base):
    module = module_of(prop)
    # the facet list is read in a separate process, so that this one never
    # imports the code under test
    meta = describe(module, base, tier)
    asan = meta.get("asan", False)
    libdir = env.build_ext("plain")
    asan_dir = env.build_ext("asan") if asan else None
    t_built = time.time()
    replay_case = None
    if args.replay:
        with open(args.replay) as f:
            replay_case = json.load(f)
        meta["facets"] = [f for f in meta["facets"] if f["name"] == replay_case["facet"]]
    if args.facet:
        meta["facets"] = [f for f in meta["facets"] if f["name"] in args.facet]
    if not meta["facets"]:
        raise env.HarnessError("no facets to run")
    budget = 100.0 if tier == "quick" else float(os.environ.get("XBOA_VERIF_BUDGET", "3000"))
    cap = 600.0 if tier == "quick" else budget + 1200
    results = []
    with concurrent.futures.ThreadPoolExecutor(max(1, args.jobs)) as pool:
        futs = []
        for f in meta["facets"]:
            use_asan = asan and f["asan"]
            futs.append(pool.submit(run_facet, module, f["name"],
                                    asan_dir if use_asan else libdir, base, tier, budget, cap,
                                    f["hang"], use_asan,
                                    os.path.abspath(args.replay) if args.replay else None))
        for f, fut in zip(meta["facets"], futs):
            res = fut.result()
            if res.get("crashed") and not args.replay and not (asan and f["asan"]):
                # crashed: search again with every case in its own process, to shrink
                again = run_facet(module, f["name"], libdir, base, tier, 60.0, 240.0,
                                  f["hang"] + 60, False, isolate=True)
                if again["status"] == "violation" and again["case"] is not None:
                    res["case"] = again["case"]
                    res["error"] += "\n(shrunk) " + again["error"]
            results.append(res)
    rc = 0
    n_viol = 0
    rdir = os.path.join(env.VERIF, "replays", prop)
    for res in results:
        line = "%-34s %-9s %6d cases %6d non-trivial %6.1fs" % (
            res["facet"], res["status"], res["evaluations"], res["nontrivial"],
            res.get("wall_s", 0))
        print(line)
        if os.environ.get("XBOA_VERIF_LABELS"):
            print("    labels:", json.dumps(res["labels"], sort_keys=True))
        if res["status"] == "violation":
            n_viol += 1
            path = args.replay
            if not path:
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%s.json" % (res["facet"], case_hash(res["case"])))
                with open(path, "w") as f:
                    json.dump({"property": prop, "facet": res["facet"], "case": res["case"],
                               "error": res["error"],
                               "replay": "/opt/venv/bin/python run.py %s --replay %s"
                                         % (prop, path)}, f, indent=1)
            print("  case: %s" % json.dumps(res["case"])[:1500])
            print("  " + res["error"].strip().replace("\n", "\n  ")[-2500:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        elif res["status"] == "error":
            print("  " + res["error"].strip().replace("\n", "\n  "))
            if rc == 0:
                rc = 2
    for text in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if not args.replay:
        write_evidence(prop, tier, results, t0, t_built, n_viol, meta)
    return rc


def known_findings(prop):
    """Listed (unrepaired) findings of this property; fixed: lines suppress nothing."""
    out = []
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def describe(module, base, tier):
    """Name, hang limit, ... of each facet, read without importing xboa."""
    import ast
    path = os.path.join(env.VERIF, "checks", module + ".py")
    tree = ast.parse(open(path).read())
    facets, meta = [], {}
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            for dec in node.decorator_list:
                if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Attribute) and \
                        dec.func.attr == "add":
                    kw = {k.arg: k.value for k in dec.keywords}

                    def lit(key, default):
                        return ast.literal_eval(kw[key]) if key in kw else default
                    facets.append({"name": lit("name", node.name), "hang": lit("hang", 120),
                                   "asan": lit("asan", False)})
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in \
                ("ASSUMPTIONS",):
            meta["assumptions"] = ast.literal_eval(node.value)
    meta["facets"] = facets
    meta["asan"] = any(f["asan"] for f in facets)
    return meta


def write_evidence(prop, tier, results, t0, t_built, n_viol, meta):
    cov = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": sum(r["nontrivial"] for r in results),
        "rule": "; ".join("%s: %s" % (r["facet"], " ".join(r["rule"].split()))
                          for r in results if r["rule"]),
        "samples": [{"facet": r["facet"], "case": c} for r in results for c in r["samples"][:2]][:40],
        "facets": {r["facet"]: {"evaluations": r["evaluations"], "distinct": r["distinct"],
                                "distinct_nontrivial": r["nontrivial"], "labels": r["labels"],
                                "status": r["status"], "wall_s": round(r.get("wall_s", 0), 2),
                                "budget_hit": r.get("budget_hit", False)}
                   for r in results},
    }
    ev = {"property": prop, "tier": tier, "seed": env.seed(), "level": "exploration",
          "coverage": cov, "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "build_s": round(t_built - t0, 2),
          "violations": n_viol}
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d.tmp" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, prop + ".json"))
