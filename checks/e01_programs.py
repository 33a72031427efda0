"""E01: the programs that come with the library, XBOA9f and File_Convert, do what their documents say."""
import contextlib
import io
import math
import os
import random
import sys
import tempfile
import types

from hypothesis import strategies as st

from vlib import env
from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
MASS = 105.6583668
POSITIVE, NEGATIVE, PION = -13, 13, 211
ICOOL = {POSITIVE: 2, NEGATIVE: -2, PION: 3}
PION_MASS = 139.57018


def program(name):
    """the program as a module that was not run, given the modules of python 2 that it asks for

    That they are not there is listed in KNOWN_FINDINGS.txt; examples are not to be changed."""
    import xboa.bunch
    import xboa.common
    import xboa.hit
    exceptions = types.ModuleType("exceptions")
    exceptions.KeyboardInterrupt = KeyboardInterrupt
    lent = {"exceptions": exceptions, "common": xboa.common, "hit": xboa.hit, "bunch": xboa.bunch}
    lent = dict((k, v) for k, v in lent.items() if k not in sys.modules)
    path = os.path.join(env.REPO, "xboa", "examples", name)
    module = types.ModuleType("program_" + name.split(".")[0])
    module.__file__ = path
    sys.modules.update(lent)
    try:
        with open(path) as source:
            exec(compile(source.read(), path, "exec"), module.__dict__)
    finally:
        for k in lent:
            del sys.modules[k]
    module.string = types.SimpleNamespace(lower=str.lower)
    return module


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as folder:
        os.chdir(folder)
        gen.clear_weights()
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield folder
        finally:
            os.chdir(here)
            gen.clear_weights()


def particles(case):
    """{station: [hit, ...]}, the first a reference particle of event 0"""
    rng = random.Random(case["seed"])
    out = {}
    for n, station in enumerate(case["stations"]):
        mix = [[rng.uniform(-1, 1) * case["mix"] if i != j else 1.0 for j in range(6)] for i in range(6)]
        sig = [20.0, 15.0, 25.0, 12.0, 0.3, 8.0]
        t0 = 10.0 * n + case["t0"]
        bz = rng.choice([-1, 1, 2]) * 1e-3
        hits = [{"x": 0.0, "y": 0.0, "px": 0.0, "py": 0.0, "t": t0, "pz": case["pz"], "event_number": 0,
                 "pid": POSITIVE}]
        for ev in range(1, case["n"] + 1):
            if ev in case["lost"] and n == case["lost"][ev] % len(case["stations"]):
                continue
            u = [rng.gauss(0, 1) for _ in range(6)]
            v = [s * sum(a * b for a, b in zip(row, u)) for s, row in zip(sig, mix)]
            hits.append({"x": v[0] + case["off"], "px": v[1], "y": v[2], "py": v[3] - 0.1 * case["off"],
                         "t": t0 + v[4] + case["buckets"] * rng.randrange(-3, 4), "pz": case["pz"] + v[5],
                         "event_number": ev,
                         "pid": rng.choice([NEGATIVE, PION]) if rng.random() < case["other"] else POSITIVE})
        for d in hits:
            d["station"], d["bz"], d["z"] = station, bz, 1000.0 * n
            d["mass"] = PION_MASS if d["pid"] == PION else MASS
            d["charge"] = -1.0 if d["pid"] == NEGATIVE else 1.0
            d["energy"] = math.sqrt(d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
            d["local_weight"] = rng.choice([0.5, 1.0, 2.0]) if case["weighted"] else 1.0
        out[station] = hits
    return out


def write(stations, name, order, fmt="icool_for009"):
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    hits = [d for k in order for d in stations[k]]
    Bunch.new_from_hits([Hit.new_from_dict(d) for d in hits]).hit_write_builtin(fmt, name)


@st.composite
def ecalc_case(draw):
    stations = draw(st.lists(st.integers(1, 400), min_size=1, max_size=3, unique=True))
    cuts = draw(st.sampled_from(["none", "wide", "some", "some"]))
    return {"seed": draw(st.integers(0, 10 ** 6)), "stations": stations, "n": draw(st.integers(30, 60)),
            "mix": draw(gen.smooth(0, 0.6, 6)), "pz": draw(gen.smooth(150, 300, 15)),
            "off": draw(gen.smooth(-20, 20, 20)), "t0": draw(gen.smooth(-5, 5, 20)),
            "other": draw(st.sampled_from([0.0, 0.2])), "weighted": draw(st.booleans()),
            "buckets": draw(st.sampled_from([0.0, 5.0])), "rf": draw(st.sampled_from([0.0, 200.0])),
            "lost": draw(st.dictionaries(st.integers(1, 20), st.integers(0, 2), max_size=4)),
            "cuts": cuts, "width": [draw(gen.smooth(3, 12, 9)), draw(gen.smooth(3, 12, 9))],
            "p": draw(st.sampled_from(["abs", "abs", "ref", "none"])), "end": draw(st.booleans()),
            "accept": draw(st.sampled_from([[15.0, 30.0], [0.0, 10.0], [40.0, 5.0], [1e6, 20.0]])),
            "long": draw(st.sampled_from([1e9, 1e9, 0.0])),
            "weights": draw(st.booleans())}


def control(case):
    """lines of the file, and the window of pz that is kept, for each reference"""
    lo, hi = {"none": (0.0, 0.0), "wide": (-1e4, 1e4), "some": (-case["width"][0], case["width"][1])}[case["cuts"]]
    if case["cuts"] == "some" and case["p"] != "ref":
        lo, hi = lo + case["pz"], hi + case["pz"]
    text = ["A title: x = 1 # 2", "2", "%r %r" % (lo / 1e3, hi / 1e3),
            "%r %r" % (case["accept"][0] / 1e3, case["accept"][1] / 1e3), repr(case["long"] / 1e3), repr(case["rf"]),
            "0.0", ".false.", ".FALSE."]

    def kept(pz):
        if case["p"] == "ref":
            return lo + case["pz"] < pz < hi + case["pz"]
        if case["p"] == "none":
            return True
        return (abs(lo) < 1e-9 or pz > lo) and (abs(hi) < 1e-9 or pz < hi)
    return text, kept


def row(hits, weights, case):
    """what the columns of the output stand for; None where the beam does not have it"""
    model = ref.Bunch(hits, weights)
    cov = model.cov(["x", "px", "y", "py", "t", "energy"])
    import numpy
    cov = numpy.array(cov)
    d = numpy.sqrt(numpy.diag(cov))
    if numpy.linalg.det(cov / numpy.outer(d, d)) < 1e-4:
        return None
    c, m = ref.C, hits[0]["mass"]
    e_t = numpy.linalg.det(cov[:4, :4]) ** 0.25 / m
    e_l = numpy.linalg.det(cov[4:, 4:]) ** 0.5 / m
    e_6 = numpy.linalg.det(cov) ** (1 / 6.0) / m
    pz, p, bz = model.mean("pz"), model.mean("p"), hits[0]["bz"]
    beta = (cov[0, 0] + cov[2, 2]) / (2 * e_t * m) * pz
    alpha = -(cov[0, 1] + cov[2, 3]) / (2 * e_t * m)
    gamma = (cov[1, 1] + cov[3, 3]) / (2 * e_t * m) / pz
    ldim = (cov[0, 3] - cov[2, 1] + c * bz * (cov[0, 0] + cov[2, 2]) / 2) / (2 * m * e_t)
    var_e, e = cov[5, 5], model.mean("energy")
    zero = {"r_squared": 0.0, "energy": 0.0}
    r2 = (model.moment(["r_squared", "energy"], zero) - (cov[0, 0] + cov[2, 2]) * e) * e / var_e
    mean = dict((k, model.mean(k)) for k in ("x", "y", "px", "py"))
    counts = []
    for accept in case["accept"]:
        n = [0.0, 0.0]
        for h, w in zip(hits, weights):
            x, y, px, py = (h[k] - mean[k] for k in ("x", "y", "px", "py"))
            amplitude = (beta / pz * (px * px + py * py) + gamma * pz * (x * x + y * y) +
                         2 * alpha * (x * px + y * py) + 2 * (beta * c * bz / 2 / pz - ldim) * (x * py - y * px)) / m
            for i, edge in enumerate((-1, 1)):
                slack = edge * 1e-6 * (1 + abs(amplitude))
                if -slack <= amplitude < accept + slack and case["long"] > 0:
                    n[i] += w
        counts.append(n)
    return [(hits[0]["station"], 0), (hits[0]["z"] / 1e3, 0), (bz / 1e-3, 0), (e_t / 1e3, 0), (e_l * c / 1e3, 0),
            (e_6 ** 3 * c / 1e9, 0), (ldim, 1e-9), (pz / 1e3, 0), (beta / 1e3, 0), (alpha, 1e-9),
            (pz ** 3 / (m * m + pz * pz) * cov[4, 4] * c * c / (m * e_l * c) / 1e3, 0),
            (cov[4, 5] / (e_l * m), 1e-9), (model.weight(), 0), counts[0], counts[1], None,
            (var_e ** 0.5 / 1e3, 0), (cov[4, 4] ** 0.5 / 1e9, 0), (0.0, 0), (0.0, 0), (var_e ** 0.5 / 1e3, 0),
            (mean["x"] / 1e3, 1e-12), (mean["y"] / 1e3, 1e-12)] + \
        [(model.moment([a, "energy"]) * e / var_e / 1e3, 1e-9) for a in ("x", "y", "r")] + [(r2 / 1e6, 1e-8)]


def options(case):
    out = {"ref": ["--p-cut-ref"], "none": ["--p-cut-none"], "abs": []}[case["p"]]
    return out + (["--end-cut"] if case["end"] else [])


def event_weights(case):
    """the global weight of each event"""
    rng = random.Random(case["seed"] + 1)
    return dict((ev, rng.choice([0.5, 1.0, 3.0])) for ev in range(0, case["n"] + 1))


def read(name):
    lines = open(name).read().split("\n")
    return lines[:14], [line.split() for line in lines[14:] if line.strip()]


@FACETS.add(strategy=ecalc_case, quick=60, thorough=2500,
            rule="XBOA9f on files of beams at several stations, for control files and command lines with cuts in "
                 "momentum (relative to the reference or not), of particles that are not in the last station, rf "
                 "buckets, weights of events: one line for each station in order, with "
                 "all columns (but canonical angular momentum, in odd units) those of the beam that is left; reading the "
                 "file back gives the same numbers; non-trivial: a cut or weights of events")
def ecalc(case, note):
    from xboa.hit import Hit
    with scratch():
        stations = particles(case)
        order = list(case["stations"])
        write(stations, "in.dat", order)
        lines, kept = control(case)
        open("control.inp", "w").write("\n".join(lines) + "\n")
        by_event = {}
        if case["weights"]:
            by_event = event_weights(case)
            some = dict((d["event_number"], d) for k in order for d in stations[k])
            for ev, d in some.items():
                Hit.new_from_dict(d).set("global_weight", by_event[ev])
        module = program("XBOA9f")
        status = module.main(["XBOA9f", "-i=in.dat", "-c=control.inp", "-o=out.dat"] + options(case))
        require(status == 0, "XBOA9f returned %r" % status)
        header, got = read("out.dat")
        back = [list(column) for column in zip(*module.read_ecalc9f_dat("out.dat"))]
        require(repr(back) == repr([[float(w) for w in line] for line in got]), "read_ecalc9f_dat gives", back)
        require(header[0].strip() == "#A title: x = 1 # 2" and float(header[8].split(":")[1]) == case["rf"],
                "header %r" % header)
    last = set(d["event_number"] for d in stations[max(order)])
    want = []
    for station in sorted(order):
        hits = [dict(d) for d in stations[station]]
        weights = []
        for d in hits:
            if case["rf"]:
                d["t"] -= stations[station][0]["t"]
                d["t"] -= math.floor(d["t"] * case["rf"] / 1e3 + 0.5) * 1e3 / case["rf"]
            ok = d["pid"] == POSITIVE and d["event_number"] != 0 and kept(d["pz"])
            if case["end"] and d["event_number"] not in last:
                ok = False
            weights.append(d["local_weight"] * by_event.get(d["event_number"], 1.0) if ok else 0.0)
        if sum(1 for w in weights if w) < 10:
            return
        line = row(hits, weights, case)
        if line is None:
            return
        want.append(line)
    require(len(got) == len(want), "%d lines for %d stations" % (len(got), len(want)))
    for line, columns in zip(got, want):
        require(len(line) == 27, "%d columns" % len(line))
        for i, (text, expected) in enumerate(zip(line, columns)):
            what = "station %d, column %d" % (columns[0][0], i + 1)
            if isinstance(expected, list):
                require(expected[0] * (1 - 6e-4) <= float(text) <= expected[1] * (1 + 6e-4) + 1e-12, what, "is", text,
                        "and not", expected)
            elif expected is not None:
                require_close(float(text), expected[0], what, 6e-4, expected[1])
    note.label("cuts " + case["cuts"], "p " + case["p"], "weights" if case["weights"] else "no weights",
               "end cut" if case["end"] else "no end cut", "rf" if case["rf"] else "no rf")
    note.nontrivial(case["cuts"] == "some" or case["weights"] or case["end"])


@st.composite
def control_data(draw):
    small = gen.smooth(-5, 5, 1000)
    return {"title": draw(st.text("abc XYZ#!123.:=", min_size=1, max_size=20).map(lambda s: "t" + s.strip())),
            "pid": draw(st.sampled_from([-13, 13, 211, 2212, -11, 0])), "pzmin": draw(small), "pzmax": draw(small),
            "transcutA": draw(small), "transcutB": draw(small), "longcut": draw(small), "rffreq": draw(small),
            "sigmacut": draw(small), "pzcorr": draw(st.booleans()), "wrnew9": draw(st.booleans())}


@FACETS.add(strategy=control_data, quick=60, thorough=1000,
            rule="a control file that XBOA9f writes is read as what was written; a control file that is cut short, "
                 "or a missing one, ends the program with status 1; all non-trivial")
def control_file(case, note):
    with scratch():
        module = program("XBOA9f")
        module.write_ecalc9_data_inp("control.inp", dict(case))
        got = module.read_ecalc9_inp("control.inp")
        require(sorted(got) == sorted(case), "keys %r" % sorted(got))
        for key, value in case.items():
            if isinstance(value, float):
                require_close(got[key], value, key, 1e-12)
            else:
                require(got[key] == value, key, "is", got[key], "and not", value)
        lines = open("control.inp").read().split("\n")
        open("short.inp", "w").write("\n".join(lines[:4]) + "\n")
        for name in ("short.inp", "missing.inp"):
            require(module.main(["XBOA9f", "-i=none.dat", "-c=" + name]) == 1, "status with " + name)
    note.nontrivial()


FORMATS = ["icool_for009", "icool_for003", "g4beamline_bl_track_file"]


@st.composite
def convert_case(draw):
    rotate = draw(st.sampled_from([[], ["x", "px"], ["y", "x", "py"], ["t", "x"]]))
    n = len(rotate)
    return {"seed": draw(st.integers(0, 10 ** 6)), "stations": draw(st.lists(st.integers(1, 30), min_size=1, max_size=3,
                                                                              unique=True)),
            "n": draw(st.integers(5, 20)), "mix": 0.3, "pz": draw(gen.smooth(150, 300, 15)),
            "off": draw(gen.smooth(-20, 20, 20)), "t0": 0.0, "other": 0.2, "weighted": draw(st.booleans()),
            "buckets": 0.0, "lost": {}, "formats": [draw(st.sampled_from(FORMATS)), draw(st.sampled_from(FORMATS))],
            "rotate": rotate,
            "factor": [draw(gen.smooth(-1, 1, 20)) for _ in range(n * n)],
            "translate": draw(st.dictionaries(st.sampled_from(["x", "y", "t", "px", "z", "pz"]), gen.smooth(-9, 9, 50),
                                              max_size=3)),
            "shell": draw(st.sampled_from(["", "energy", "pz", "p"])), "pick": draw(st.booleans()),
            "shuffle": draw(st.integers(0, 100))}


def values(hits, names):
    return [tuple(hit[k] for k in names) for hit in hits]


@FACETS.add(strategy=convert_case, quick=100, thorough=4000,
            rule="File_Convert on control files with lines in any order, comments and blank lines: the output "
                 "file holds the particles of the input file, or of the one station asked for, translated and put on mass "
                 "shell; with a rotation its covariance is the one asked for, scaled to the same "
                 "determinant; non-trivial: a rotation or translation")
def convert(case, note):
    import numpy
    from xboa.bunch import Bunch
    fmt_in, fmt_out = case["formats"]
    rotate, n = case["rotate"], len(case["rotate"])
    with scratch():
        stations = particles(case)
        write(stations, "in.dat", case["stations"], fmt_in)
        pick = case["pick"] and fmt_in == "icool_for009"
        lines = ["file_in in.dat", "format_in " + fmt_in, "file_out out.dat  # where", "format_out\t" + fmt_out, "",
                 "# translate x 100", "! rotate x y"]
        if pick:
            lines.append("station_in %d ! only" % case["stations"][0])
        target = None
        if rotate:
            f = numpy.array(case["factor"]).reshape(n, n) + 2.5 * numpy.eye(n)
            target = f.dot(f.T)
            lines.append("rotate " + " ".join(rotate))
            lines += ["covariance %s %s %r" % (rotate[i], rotate[j], float(target[i, j]))
                      for i in range(n) for j in range(i + 1)]
        if case["translate"] and not rotate:
            lines.append("translate " + " ".join("%s %r" % t for t in sorted(case["translate"].items())))
        if case["shell"]:
            lines.append("mass_shell_condition " + case["shell"])
        random.Random(case["shuffle"]).shuffle(lines)
        open("c.inp", "w").write("\n".join(lines) + "\n")
        program("File_Convert.py").file_convert("c.inp")
        before = Bunch.new_from_read_builtin(fmt_in, "in.dat")
        after = Bunch.new_from_read_builtin(fmt_out, "out.dat")
    hits = [h for h in before if not pick or h["station"] == case["stations"][0]]
    require(len(hits) == len(after) > 0, "%d hits of %d written" % (len(after), len(hits)))
    # formats order particles of their own accord, so they are found by event and pid
    key = lambda h: (h["event_number"], h["pid"], round(h["t"], 6), round(h["z"], 3))
    common = ["event_number", "pid", "mass"] + \
             [k for k in ("x", "y", "z", "t", "px", "py", "pz") if k not in rotate]
    if fmt_in != fmt_out and "g4beamline_bl_track_file" in (fmt_in, fmt_out):
        common.remove("pid")
        common.remove("mass")
    moved = []
    for h in hits:
        d = dict((k, h[k]) for k in ("x", "y", "z", "t", "px", "py", "pz", "energy", "mass", "event_number", "pid",
                                     "local_weight"))
        if not rotate:
            for k, v in case["translate"].items():
                d[k] += v
        if case["shell"] in ("pz", "p") and not rotate:
            p2 = d["energy"] ** 2 - d["mass"] ** 2
            if case["shell"] == "pz":
                rest = p2 - d["px"] ** 2 - d["py"] ** 2
                if rest < 1.0:
                    return
                d["pz"] = math.copysign(math.sqrt(rest), d["pz"])
            else:
                scale = math.sqrt(p2 / (d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2))
                for k in ("px", "py", "pz"):
                    d[k] *= scale
        moved.append(d)
    if not rotate:
        used = list(after)
        for d in moved:
            near = min(used, key=lambda h: sum(abs(h[k] - d[k]) for k in ("event_number", "x", "y", "z", "t", "px")))
            used.remove(near)
            for k in common:
                require_close(near[k], d[k], "%s of event %d" % (k, d["event_number"]), 1e-9, 1e-6)
            require_close(near["local_weight"], d["local_weight"], "weight", 1e-9)
    elif not case["shell"] or set(rotate) <= {"x", "y", "t"} or case["shell"] == "energy":
        def cov(bunch):
            model = ref.Bunch([dict((k, h[k]) for k in rotate) for h in bunch], [h["local_weight"] for h in bunch])
            return numpy.array(model.cov(rotate))
        old, new = cov(hits), cov(after)
        d = numpy.sqrt(numpy.diag(old))
        if numpy.linalg.det(old / numpy.outer(d, d)) < 1e-4:
            return
        scale = (numpy.linalg.det(old) / numpy.linalg.det(target)) ** (1.0 / n)
        size = numpy.sqrt(numpy.outer(numpy.diag(target), numpy.diag(target))) * scale
        require((abs(new - scale * target) < 1e-6 * size).all(), "covariance", new.tolist(),
                "and not", (scale * target).tolist())
    note.label(fmt_in + " to " + fmt_out, "rotate" if rotate else "translate" if case["translate"] else "copy",
               "shell " + case["shell"])
    note.nontrivial(bool(rotate or case["translate"]))
