"""A04: the closed orbit finder finds the fixed point of the tracking."""
import itertools
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()
PLANES = [("x", "px"), ("y", "py")]
ORDER = ["x", "px", "y", "py", "t", "energy"]


def plane():
    return st.fixed_dictionaries({
        "tune": gen.smooth(0.11, 0.39, 280), "beta": gen.smooth(0.3, 5, 200), "alpha": gen.smooth(-1, 1, 200),
        "x": gen.smooth(-20, 20, 400), "p": gen.smooth(-20, 20, 400),
        "dx": gen.smooth(0.5, 5, 90), "dp": gen.smooth(-5, 5, 100)})


@st.composite
def rings(draw, planes=None):
    n = draw(st.integers(1, 2)) if planes is None else planes
    spec = [draw(plane()) for _ in range(2)]
    if n == 2:
        spec[1]["tune"] = spec[0]["tune"] * 0.55 + 0.03
    return {"planes": n, "spec": spec, "turns": draw(st.integers(2, 12)), "need": draw(st.integers(8, 40)),
            "use_seed": draw(st.booleans()), "energy": draw(gen.smooth(400, 2000, 160))}


def block(p):
    mu = 2 * math.pi * p["tune"]
    c, s, a, b = math.cos(mu), math.sin(mu), p["alpha"], p["beta"]
    return [[c + a * s, b * s], [-(1 + a * a) / b * s, c - a * s]]


def comes_back(case):
    """A hit that is back where it started counts as no new hit (RuntimeError, as for lost())."""
    ends = [case["turns"] * p["tune"] for p in case["spec"][:case["planes"]]]
    return all(abs(e - round(e)) < 1e-3 for e in ends)


class Ring(object):
    def __init__(self, case):
        import numpy
        from xboa.hit import Hit
        from xboa.tracking import MatrixTracking
        self.case = case
        self.blocks = [numpy.array(block(p)) for p in case["spec"]]
        m = numpy.eye(6)
        for i, b in enumerate(self.blocks):
            m[2 * i:2 * i + 2, 2 * i:2 * i + 2] = b
        offset = [v for p in case["spec"] for v in (p["x"], p["p"])] + [0.0, case["energy"]]
        offset = numpy.matrix(offset)
        matrices = [numpy.matrix(numpy.linalg.matrix_power(m, k + 1)) for k in range(case["turns"])]
        self.tracking = MatrixTracking(matrices, [offset] * case["turns"], offset)
        self.co = dict(zip(ORDER, offset.tolist()[0]))
        self.seed = Hit.new_from_dict({"pid": 2212, "mass": 938.272, "charge": 1.0, "energy": case["energy"] + 938.272})
        self.seed["energy"] = case["energy"] + 1000.0
        for key in ORDER:
            self.seed[key] = self.co[key]
        self.seed["energy"] = case["energy"] + 1000.0
        self.keys = [k for pair in PLANES[:case["planes"]] for k in pair]
        self.start = {}
        for (x, p), spec in zip(PLANES, case["spec"]):
            self.start[x], self.start[p] = spec["x"] + spec["dx"], spec["p"] + spec["dp"]

    def orbit(self, start, count, use_seed, keys):
        """The points of the turns from start, as many as the finder should ask for."""
        import numpy
        turns = self.case["turns"]
        total = count - 1 if use_seed else count
        total = max(0, -(-total // turns) * turns)
        out = []
        state = [numpy.array([start[x] - self.co[x], start[p] - self.co[p]]) for x, p in PLANES]
        if use_seed:
            out.append(dict(start))
        for _ in range(total):
            state = [b.dot(s) for b, s in zip(self.blocks, state)]
            here = {}
            for (x, p), s in zip(PLANES, state):
                here[x], here[p] = s[0] + self.co[x], s[1] + self.co[p]
            out.append(here)
        return [[point[k] for k in keys] for point in out]


def statistics(points):
    n, d = len(points), len(points[0])
    mean = [math.fsum(p[i] for p in points) / n for i in range(d)]
    cov = [[math.fsum((p[i] - mean[i]) * (p[j] - mean[j]) for p in points) / n for j in range(d)] for i in range(d)]
    return mean, cov


def check_iteration(it, keys, points, what):
    """An iteration must hold these points, their mean and covariance, and their noise."""
    import numpy
    require(list(it.keys) == list(keys), "%s: keys %r" % (what, it.keys))
    require(len(it.points) == len(points), "%s: %d points, want %d" % (what, len(it.points), len(points)))
    for got, want in zip(it.points, points):
        for g, w in zip(got, want):
            require_close(g, w, what + ": tracked point", 1e-7, 1e-7)
    mean, cov = statistics([list(p) for p in it.points])
    det = numpy.linalg.det(numpy.array(cov))
    if not det > 1e-2 or numpy.linalg.cond(numpy.array(cov)) > 1e8:
        return False
    d = len(mean)
    for i in range(d):
        require_close(it.centre[i], mean[i], what + ": centre", 1e-7, 1e-7)
        for j in range(d):
            require_close(it.ellipse[i][j] if not hasattr(it.ellipse, "tolist") else it.ellipse.tolist()[i][j],
                          cov[i][j], what + ": ellipse", 1e-6, 1e-6)
    inverse = numpy.linalg.inv(numpy.array(cov)) * det ** (1.0 / d)
    noise = []
    for p in it.points:
        u = numpy.array(p) - numpy.array(mean)
        noise.append(float(u.dot(inverse).dot(u)))
    require(len(it.noise) == len(noise), "%s: %d noise values" % (what, len(it.noise)))
    for g, w in zip(it.noise, noise):
        require_close(g, w, what + ": noise", 1e-5, 1e-6)
    m = math.fsum(noise) / len(noise)
    require_close(it.get_mean_noise(), m, what + ": mean noise", 1e-5)
    require_close(m, d * det ** (1.0 / d), "reference mean noise", 1e-6)
    var = math.fsum((v - m) ** 2 for v in noise) / len(noise)
    require_close(it.get_sigma_noise(), math.sqrt(var), what + ": sigma noise", 1e-4, 1e-4 * m)
    return True


@FACETS.add(strategy=rings, quick=120, thorough=3000,
            rule="check_closed_orbit: the points are those of the turns asked for, continued from the last hit when "
                 "tracking gives too few, the seed first if asked; centre and ellipse are their mean and covariance, "
                 "noise their amplitudes, with mean and deviation; seed hit unchanged; "
                 "non-trivial: tracking continued")
def check(case, note):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    if comes_back(case):
        return
    ring = Ring(case)
    before = {k: ring.seed[k] for k in ORDER}
    finder = EllipseClosedOrbitFinder(ring.tracking, ring.seed, 1e9, case["use_seed"])
    values = {k: ring.start[k] for k in ring.keys}
    it = finder.check_closed_orbit(values, case["need"])
    keys = sorted(ring.keys)
    start = dict(ring.co, **values)
    full = check_iteration(it, keys, ring.orbit(start, case["need"], case["use_seed"], keys), "check")
    require({k: ring.seed[k] for k in ORDER} == before, "seed hit changed")
    require(it.json_repr() == {"points": it.points, "keys": it.keys, "eps_max": 1e9}, "json_repr")
    note.label("%dD" % (2 * case["planes"]), "ellipse" if full else "flat", "seed" if case["use_seed"] else "no seed")
    note.nontrivial(full and case["need"] > case["turns"])


@FACETS.add(strategy=lambda: st.tuples(rings(), st.sampled_from([None, 1, 2, 3, 100])), quick=60, thorough=1500,
            rule="find_closed_orbit_generator: each iteration tracks from the centre of the one before, the first "
                 "from the seed; it ends by itself after max_iterations, or when the noise exceeds the ellipse, or "
                 "fails only once it is at the closed orbit; given enough iterations it gets there; "
                 "non-trivial: 3 iterations")
def find(case, note):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    if comes_back(case[0]):
        return
    ring, most = Ring(case[0]), case[1]
    case = case[0]
    need = max(case["need"], 16)
    for k in ring.keys:
        ring.seed[k] = ring.start[k]
    seed = {k: ring.seed[k] for k in ORDER}
    finder = EllipseClosedOrbitFinder(ring.tracking, ring.seed, 1e9, case["use_seed"])
    made = finder.find_closed_orbit_generator(ring.keys, need, max_iterations=most)
    start, count, last, ended = seed, 0, None, False
    size = max(abs(ring.start[k] - ring.co[k]) for k in ring.keys)
    while True:
        try:
            it = next(made)
        except StopIteration:
            ended = True
            break
        except (ValueError, RuntimeError) as error:
            require(last is not None, "failed at the first iteration: %r" % error)
            far = max(abs(last.centre[i] - ring.co[k]) for i, k in enumerate(ring.keys))
            require(far < 1e-2 * (1 + size), "failed %r away from the orbit: %r" % (far, error))
            break
        count += 1
        require(most is None or count <= most, "more than %r iterations" % most)
        require(count <= 300, "does not end")
        points = ring.orbit(start, need, case["use_seed"], ring.keys)
        check_iteration(it, ring.keys, points, "iteration %d" % count)
        start = dict(start, **{k: float(it.centre[i]) for i, k in enumerate(ring.keys)})
        last = it
    require({k: ring.seed[k] for k in ORDER} == seed, "seed hit changed")
    if ended and most is not None and count < most:
        require(last.get_mean_noise() < last.get_sigma_noise() or count > 0, "stopped early")
    if most is None or most == 100:
        for i, k in enumerate(ring.keys):
            far = abs(last.centre[i] - ring.co[k])
            require(far < 0.35 * (1 + size), "%r away from the closed orbit in %s" % (far, k))
    elif ended and count < most:
        require(last.get_mean_noise() < last.get_sigma_noise() * (1 + 1e-9)
                or max(abs(last.centre[i] - ring.co[k]) for i, k in enumerate(ring.keys)) < 1e-2 * (1 + size),
                "stopped after %d of %d iterations" % (count, most))
    note.label("ended" if ended else "precision limit", "most %r" % most, "%d iterations" % min(count, 6))
    note.nontrivial(count > 2)


@st.composite
def scripts(draw):
    n = draw(st.integers(8, 20))
    coord = st.integers(-40, 40).map(lambda v: v / 8.0)
    rounds = []
    for _ in range(draw(st.integers(1, 5))):
        cloud = draw(st.lists(st.tuples(coord, coord), min_size=n, max_size=n))
        if draw(st.sampled_from([False, False, True])):   # noisy: one point far out
            cloud[draw(st.integers(0, n - 1))] = (draw(st.sampled_from([60.0, -80.0])), draw(st.sampled_from([55.0, -90.0])))
        rounds.append(cloud)
    return {"n": n, "rounds": rounds, "piece": draw(st.integers(1, 20)), "use_seed": draw(st.booleans())}


@FACETS.add(strategy=scripts, quick=100, thorough=3000,
            rule="find_closed_orbit_generator with tracking that gives any points: each round of tracking is one "
                 "iteration that the user gets, starting at the centre of the one before, up to and with the first "
                 "whose mean noise is below its deviation, or the number allowed; non-trivial: ended by noise after "
                 "2 or more")
def scripted(case, note):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    from xboa.hit import Hit
    n, rounds, piece = case["n"], case["rounds"], case["piece"]
    extra = 1 if case["use_seed"] else 0
    asked = []

    class Script(object):
        """Gives the points of a round piece by piece"""
        at, left = -1, 0

        def track_one(self, hit):
            if Script.left <= 0:
                Script.at += 1
                Script.left = n - extra
                asked.append((hit["x"], hit["px"]))
            begin = n - extra - Script.left
            points = rounds[min(Script.at, len(rounds) - 1)][begin:min(begin + piece, n - extra)]
            Script.left -= len(points)
            out = [hit.deepcopy()]
            for i, (x, px) in enumerate(points):
                out.append(hit.deepcopy())
                out[-1]["x"], out[-1]["px"], out[-1]["t"] = x, px, 1000.0 * Script.at + begin + i + 1.0
            return out

    seed = Hit.new_from_dict({"pid": 2212, "mass": 938.272, "x": 3.0, "px": -2.0, "pz": 300.0}, "energy")
    expected, start = [], (3.0, -2.0)
    for cloud in rounds:
        points = ([start] if extra else []) + list(cloud[:n - extra])
        mean, cov = statistics(points)
        det = cov[0][0] * cov[1][1] - cov[0][1] ** 2
        if det < 1e-1 or cov[0][0] + cov[1][1] > 1e6 * det:
            return
        noise = [(cov[1][1] * (x - mean[0]) ** 2 - 2 * cov[0][1] * (x - mean[0]) * (p - mean[1])
                  + cov[0][0] * (p - mean[1]) ** 2) / det for x, p in points]
        sigma = math.sqrt(math.fsum((v - 2.0) ** 2 for v in noise) / n)
        if abs(sigma - 2.0) < 1e-3:
            return    # too close to call
        expected.append((start, points))
        start = tuple(mean)
        if sigma > 2.0:
            break
    noisy = sigma > 2.0
    finder = EllipseClosedOrbitFinder(Script(), seed, 1e9, case["use_seed"])
    got = list(finder.find_closed_orbit_generator(["x", "px"], n, len(rounds)))
    require(len(got) == len(expected), "%d iterations of %d" % (len(got), len(expected)))
    require(len(asked) == len(expected), "%d rounds of tracking of %d" % (len(asked), len(expected)))
    for i, (it, here, (begin, points)) in enumerate(zip(got, asked, expected)):
        require_close(here[0], begin[0], "start of round %d" % i, 1e-9, 1e-9)
        require_close(here[1], begin[1], "start of round %d" % i, 1e-9, 1e-9)
        check_iteration(it, ["x", "px"], points, "iteration %d" % i)
    note.label("noise" if noisy else "number", "%d iterations" % len(got), "pieces" if piece < n - extra else "at once")
    note.nontrivial(noisy and len(got) > 1)


@st.composite
def scans(draw):
    keys = draw(st.lists(st.sampled_from(["x", "px", "y", "py"]), min_size=1, max_size=3, unique=True))
    start = {k: draw(st.integers(-8, 8)) / 2.0 for k in keys}
    step = {k: draw(st.integers(1, 6)) / 4.0 for k in keys}
    end = {k: start[k] + draw(st.integers(0, 16)) / 4.0 for k in keys}
    return {"ring": draw(rings()), "start": start, "end": end, "step": step}


@FACETS.add(strategy=scans, quick=80, thorough=1500,
            rule="scan_generator: one iteration for each point of the grid from start, by step, up to but without "
                 "end, the last variable in the order of names fastest, with the hits tracked from there; it ends by "
                 "itself; dictionaries and seed unchanged; non-trivial: 2 variables, one ending on a step")
def scan(case, note):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    ring = Ring(case["ring"])
    start, end, step = case["start"], case["end"], case["step"]
    keep = dict(start), dict(end), dict(step)
    keys = sorted(start)
    axes = []
    for k in keys:
        axes.append([])
        i = 0
        while start[k] + i * step[k] < end[k]:
            axes[-1].append(start[k] + i * step[k])
            i += 1
    want = [list(p) for p in itertools.product(*axes)] if all(axes) else []
    if len(want) > 120:
        return
    before = {k: ring.seed[k] for k in ORDER}
    finder = EllipseClosedOrbitFinder(ring.tracking, ring.seed, 1e9)
    got = list(itertools.islice(finder.scan_generator(start, end, step), len(want) + 5))
    require([list(g.points[0]) for g in got] == want, "scanned %r, want %r" % ([g.points[0] for g in got], want))
    turns = case["ring"]["turns"]
    for g, w in zip(got, want):
        here = dict(ring.co, **dict(zip(keys, w)))
        points = [w] + ring.orbit(here, turns, False, keys)
        require(list(g.keys) == keys and len(g.points) == len(points), "scan point %r" % w)
        for p, q in zip(g.points, points):
            for a, b in zip(p, q):
                require_close(a, b, "scan point", 1e-7, 1e-7)
    require((start, end, step) == keep, "dictionaries changed")
    require({k: ring.seed[k] for k in ORDER} == before, "seed hit changed")
    exact = any((end[k] - start[k]) % step[k] == 0 for k in keys)
    note.label("%d variables" % len(keys), "empty" if not want else "%s points" % ("many" if len(want) > 1 else 1),
               "ends on a step" if exact else "between steps")
    note.nontrivial(len(keys) > 1 and exact and len(want) > 1)


@FACETS.add(strategy=lambda: st.fixed_dictionaries({"kind": st.sampled_from(["none", "same"]),
                                                    "ring": rings(), "use_seed": st.booleans()}),
            quick=30, thorough=300,
            rule="tracking that returns only the hit it was given, or the same hit again, raises RuntimeError "
                 "instead of going on for ever; non-trivial: all")
def lost(case, note):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    ring = Ring(case["ring"])

    class Lost(object):
        calls = 0

        def track_one(self, hit):
            Lost.calls += 1
            if Lost.calls > 1000:
                raise AssertionError("goes on for ever")
            return [hit] if case["kind"] == "none" else [hit, hit.deepcopy()]

    finder = EllipseClosedOrbitFinder(Lost(), ring.seed, 1e9, case["use_seed"])
    for call in (lambda: finder.check_closed_orbit({k: ring.start[k] for k in ring.keys}, 10),
                 lambda: next(finder.find_closed_orbit_generator(ring.keys, 10))):
        try:
            call()
        except RuntimeError:
            continue
        require(False, "no RuntimeError")
    note.label(case["kind"])
    note.nontrivial(True)


@FACETS.add(strategy=lambda: st.tuples(rings(), st.sampled_from(["mm", "m", "cm", ""]), st.sampled_from(["MeV/c", "GeV/c", ""])),
            quick=25, thorough=400,
            rule="plots of an iteration hold its points in the units asked for under the names and units, and its "
                 "ellipse in the same units; non-trivial: units that are not 1")
def plots(case, note):
    import matplotlib.pyplot
    import xboa.common as Common
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    if comes_back(case[0]):
        return
    ring, ux, up = Ring(case[0]), case[1], case[2]
    finder = EllipseClosedOrbitFinder(ring.tracking, ring.seed, 1e9)
    it = finder.check_closed_orbit({k: ring.start[k] for k in ring.keys}, max(12, case[0]["need"]))
    scale = {"mm": 1.0, "m": 1000.0, "cm": 10.0, "MeV/c": 1.0, "GeV/c": 1000.0, "": 1.0}
    ix, ip = it.keys.index("x"), it.keys.index("px")
    want = [(p[ix] / scale[ux], p[ip] / scale[up]) for p in it.points]
    canvas, hist, ellipse, graph = it.plot_ellipse_root("x", "px", ux, up)
    require(graph.GetN() == len(want), "%d points of %d" % (graph.GetN(), len(want)))
    for i, (x, p) in enumerate(sorted(want)):
        require_close(graph.GetPointX(i), x, "ROOT x", 1e-9, 1e-9)
        require_close(graph.GetPointY(i), p, "ROOT px", 1e-9, 1e-9)
    title = ("x [%s]" % ux if ux else "x"), ("px [%s]" % up if up else "px")
    require((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == title, "titles")
    cov = statistics([(p[ix], p[ip]) for p in it.points])[1]
    det = cov[0][0] * cov[1][1] - cov[0][1] ** 2
    if det > 1e-2:
        centre = statistics(want)[0]
        require(abs(ellipse.Eval(*centre)) < 1e-6, "ellipse at its centre: %r" % ellipse.Eval(*centre))
        for x, p in want[:5]:
            u, v = (x - centre[0]) * scale[ux], (p - centre[1]) * scale[up]
            r = (cov[1][1] * u * u - 2 * cov[0][1] * u * v + cov[0][0] * v * v) / det
            require_close(ellipse.Eval(x, p), r, "ellipse function", 1e-5, 1e-6)
        note.label("ellipse")
    figure = it.plot_ellipse_matplotlib("x", "px", ux, up)
    axes = matplotlib.pyplot.figure(figure).gca()
    offsets = [tuple(o) for c in axes.collections for o in c.get_offsets().tolist()]
    require(len(offsets) == len(want), "%d points drawn" % len(offsets))
    for (a, b), (x, p) in zip(offsets, want):
        require_close(a, x, "matplotlib x", 1e-9, 1e-9)
        require_close(b, p, "matplotlib px", 1e-9, 1e-9)
    require((axes.get_xlabel(), axes.get_ylabel()) == title, "labels")
    matplotlib.pyplot.close("all")
    Common.clear_root()
    note.nontrivial(scale[ux] != 1 or scale[up] != 1)
