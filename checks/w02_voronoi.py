"""W02: Voronoi weights are tile content times target density; the bound cuts and closes as it says."""
import math
import random

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()
VARIABLES = ["x", "y", "px", "py"]


@st.composite
def ellipse(draw, dim, lo=1.0, hi=20.0):
    """Mean and a positive matrix, as lists."""
    size = [draw(gen.smooth(lo, hi, 76)) for _ in range(dim)]
    mix = [[draw(gen.smooth(-0.4, 0.4, 16)) if j < i else 0.0 for j in range(dim)] for i in range(dim)]
    low = [[size[i] * (1.0 if i == j else mix[i][j]) for j in range(dim)] for i in range(dim)]
    v = [[sum(low[i][k] * low[j][k] for k in range(dim)) for j in range(dim)] for i in range(dim)]
    return {"v": v, "mean": [draw(gen.smooth(-20, 20, 80)) for _ in range(dim)]}


def form(inverse, mean, point):
    u = [p - m for p, m in zip(point, mean)]
    return math.fsum(u[i] * u[j] * inverse[i][j] for i in range(len(u)) for j in range(len(u)))


@st.composite
def bounds(draw):
    dim = draw(st.integers(1, 4))
    radii = st.one_of(gen.smooth(0, 2, 37), st.sampled_from([0.0, 0.9999, 1.0001, 30.0]))
    points = [{"r": draw(radii), "seed": draw(st.integers(0, 999))} for _ in range(draw(st.integers(0, 12)))]
    return {"dim": dim, "e": draw(ellipse(dim)), "n": draw(st.integers(1, 6 if dim < 3 else 4)), "points": points}


@FACETS.add(strategy=bounds, quick=300, thorough=10000,
            rule="the n^D bounding points (without the centre of the grid when n is odd) are all on the ellipse and "
                 "one lies in the direction of each point of the grid; cut_on_bound keeps, in order and with their "
                 "places, the points inside; nothing given is changed; non-trivial: some points in and some out")
def bound(case, note):
    import itertools
    import numpy
    from xboa.bunch.weighting import BoundingEllipse
    dim, n = case["dim"], case["n"]
    v, mean = numpy.array(case["e"]["v"]), numpy.array(case["e"]["mean"])
    keep = v.copy(), mean.copy()
    be = BoundingEllipse(v, mean, n)
    inverse = numpy.linalg.inv(v)
    got = numpy.array(be.bounding_points)
    axis = [-1.0] + [2.0 * j / (n - 1) - 1.0 for j in range(1, n)]
    grid = [g for g in itertools.product(axis, repeat=dim) if any(abs(u) > 1e-9 for u in g)]
    require(be.dim == dim and got.shape == (len(grid), dim), "%r points, want %d" % (got.shape, len(grid)))
    want = sorted([m + u / form(inverse, [0.0] * dim, g) ** 0.5 for m, u in zip(mean, g)] for g in grid)
    for g in got.tolist():
        require_close(form(inverse, mean, g), 1.0, "bounding point on the ellipse", 1e-9)
    left = got.copy()
    for w in want:
        far = abs(left - numpy.array(w)).max(axis=1)
        k = int(numpy.argmin(far))
        require(far[k] < 1e-6, "no bounding point at %r" % w)
        left = numpy.delete(left, k, 0)
    root = numpy.linalg.cholesky(v)
    points = []
    for p in case["points"]:
        rng = random.Random(p["seed"])
        u = numpy.array([rng.gauss(0, 1) for _ in range(dim)])
        points.append(mean + p["r"] * root.dot(u / numpy.linalg.norm(u)))
    r = [form(inverse, mean, p) for p in points]
    if any(abs(a - 1) < 1e-6 for a in r):
        return
    given = numpy.array(points).reshape(len(points), dim)
    before = given.copy()
    out, places = be.cut_on_bound(given)
    inside = [i for i, a in enumerate(r) if a < 1]
    require(list(places) == inside, "kept %r, want %r" % (places, inside))
    require(numpy.array_equal(numpy.array(out).reshape(len(inside), dim), before[inside].reshape(len(inside), dim)),
            "points kept are not those inside")
    require(numpy.array_equal(given, before) and numpy.array_equal(v, keep[0]) and numpy.array_equal(mean, keep[1]),
            "arguments changed")
    note.label("%dD" % dim, "odd" if n % 2 else "even")
    note.nontrivial(0 < len(inside) < len(points))


@FACETS.add(strategy=lambda: st.tuples(st.sampled_from(["number", "zero", "square", "mean", "weight mean", "weight square",
                                                        "bound", "axes number", "axes name", "early", "fill"]),
                                       st.integers(2, 3)),
            quick=60, thorough=400,
            rule="matrices, means, bounds, numbers and axes of the wrong type, shape or name raise ValueError; "
                 "non-trivial: all")
def refused(case, note):
    import numpy
    import xboa.common as Common
    from xboa.bunch.weighting import BoundingEllipse, VoronoiWeighting
    kind, dim = case
    v, mean = numpy.identity(dim), numpy.zeros(dim)
    names = VARIABLES[:dim]

    def call():
        if kind == "number":
            BoundingEllipse(v, mean, 3.0)
        elif kind == "zero":
            BoundingEllipse(v, mean, 0)
        elif kind == "square":
            BoundingEllipse(numpy.zeros((dim, dim + 1)), mean, 3)
        elif kind == "mean":
            BoundingEllipse(v, numpy.zeros(dim + 1), 3)
        elif kind == "weight mean":
            VoronoiWeighting(names, v, numpy.zeros(dim - 1))
        elif kind == "weight square":
            VoronoiWeighting(names[:-1], v)
        elif kind == "bound":
            VoronoiWeighting(names, v, None, BoundingEllipse(numpy.identity(dim + 1), numpy.zeros(dim + 1), 2))
        else:
            w = VoronoiWeighting(names, v)
            if kind != "early":
                rng = random.Random(1)
                hits = [dict((k, rng.uniform(-5, 5)) for k in names) for _ in range(9)]
                w.apply_weights(gen.make_bunch(hits), False)
            axes = {"axes number": ["x"], "axes name": ["x", "t"]}.get(kind, ["x", "y"])
            w.plot_two_d_projection(axes, "colour" if kind == "fill" else None)
    try:
        call()
    except ValueError:
        pass
    else:
        require(False, "%s: not refused" % kind)
    finally:
        Common.clear_root()
    note.label(kind)
    note.nontrivial(True)


@FACETS.add(strategy=lambda: st.integers(1, 4).flatmap(lambda d: st.tuples(
                ellipse(d), st.one_of(st.none(), st.just("mean")), st.lists(gen.smooth(-60, 60, 480), min_size=d, max_size=d))),
            quick=200, thorough=5000,
            rule="get_pdf is the multivariate Gaussian of the ellipse and mean given, the mean 0 if none is; "
                 "non-trivial: two dimensions and a mean")
def pdf(case, note):
    import numpy
    from xboa.bunch.weighting import VoronoiWeighting
    e, with_mean, point = case
    dim = len(point)
    v = numpy.array(e["v"])
    mean = e["mean"] if with_mean else [0.0] * dim
    w = VoronoiWeighting(VARIABLES[:dim], v, numpy.array(mean) if with_mean else None)
    want = math.exp(-0.5 * form(numpy.linalg.inv(v), mean, point)) \
        / math.sqrt((2 * math.pi) ** dim * numpy.linalg.det(v))
    require_close(w.get_pdf(numpy.array(point)), want, "density", 1e-7)
    note.label("%dD" % dim)
    note.nontrivial(dim > 1 and with_mean)


# ---- tiles ----
def positions(spec, dim):
    """Distinct points on a lattice, shaken, or in clumps."""
    rng = random.Random(spec["seed"])
    side = 2 + int(spec["n"] ** (1.0 / dim))
    out = set()
    while len(out) < spec["n"]:
        p = [rng.randint(-side, side) for _ in range(dim)]
        if spec["kind"] != "lattice":
            p = [u + rng.uniform(-0.5, 0.5) for u in p]
        if spec["kind"] == "clumps" and p[0] > 0:
            p = [u * 0.1 for u in p]
        out.add(tuple(float(u) for u in p))
    out = sorted(out)
    rng.shuffle(out)
    return [list(p) for p in out]


def points_spec(lo=5, hi=30):
    return st.fixed_dictionaries({"n": st.integers(lo, hi), "seed": st.integers(0, 10**6),
                                  "kind": st.sampled_from(["lattice", "shaken", "shaken", "clumps"])})


FAR = 1e7


def cell(i, points):
    """The part of a huge square that is closer to point i than to any other: (vertices, closed?)."""
    poly = [(-FAR, -FAR), (FAR, -FAR), (FAR, FAR), (-FAR, FAR)]
    px, py = points[i]
    for j, (qx, qy) in enumerate(points):
        if j == i or (qx == px and qy == py):
            continue
        a, b = qx - px, qy - py
        c = a * (px + qx) / 2.0 + b * (py + qy) / 2.0
        new = []
        for k, here in enumerate(poly):
            there = poly[(k + 1) % len(poly)]
            s, t = a * here[0] + b * here[1] - c, a * there[0] + b * there[1] - c
            if s <= 0:
                new.append(here)
            if (s < 0 < t) or (t < 0 < s):
                f = s / (s - t)
                new.append((here[0] + f * (there[0] - here[0]), here[1] + f * (there[1] - here[1])))
        poly = new
    reach = max(max(abs(u - px), abs(v - py)) for u, v in poly)
    return poly, reach


def area(i, points):
    """(area, tolerance) of a tile; (0, 0) if it is open; None if that can not be told."""
    poly, reach = cell(i, points)
    if reach > FAR / 10:
        return 0.0, 0.0
    if reach > 2e3:
        return None
    px, py = points[i]
    poly = [(u - px, v - py) for u, v in poly]
    total = 0.5 * abs(math.fsum(poly[k][0] * poly[(k + 1) % len(poly)][1] - poly[(k + 1) % len(poly)][0] * poly[k][1]
                                for k in range(len(poly))))
    return total, 1e-6 * (1 + reach * reach)


@FACETS.add(strategy=lambda: st.fixed_dictionaries({"p": points_spec(), "dim": st.sampled_from([2, 2, 2, 3]),
                                                    "procs": st.integers(1, 3), "pick": st.integers(0, 10**6),
                                                    "all": st.booleans()}),
            quick=60, thorough=1500,
            rule="HullContent gives, for any list of points and number of processes, the content of the tile of each: "
                 "the area of the cell found by clipping half planes (2D), the volume of the hull of its vertices "
                 "(3D), 0 for open tiles; and the same again; non-trivial: two closed tiles")
def content(case, note):
    import numpy
    import scipy.spatial
    from xboa.bunch.weighting import HullContent
    points = positions(case["p"], case["dim"])
    t = scipy.spatial.Voronoi(numpy.array(points))
    which = list(range(len(points)))
    if not case["all"]:
        rng = random.Random(case["pick"])
        rng.shuffle(which)
        which = which[:1 + case["pick"] % len(which)]
    hull = HullContent(t, list(which), case["procs"])
    try:
        got = hull.tile_content_list
        hull.recalculate()
        require(list(hull.tile_content_list) == list(got), "differs when calculated again")
    finally:
        hull.pool.terminate()
        hull.pool.join()
    require(len(got) == len(which), "%d contents of %d tiles" % (len(got), len(which)))
    closed = 0
    for i, g in zip(which, got):
        if case["dim"] == 2:
            want = area(i, points)
            if want is None:
                continue
        else:
            region = t.regions[t.point_region[i]]
            if -1 in region or not region:
                want = 0.0, 0.0
            else:
                vertices = t.vertices[region]
                reach = abs(vertices - numpy.array(points[i])).max()
                if reach > 100:
                    continue
                want = scipy.spatial.ConvexHull(vertices).volume, 1e-5 * (1 + reach ** 3)
        require(abs(g - want[0]) <= want[1] + 1e-6 * want[0], "content of tile %d: %r, want %r" % (i, g, want[0]))
        closed += want[0] > 0
    note.label("%dD" % case["dim"], case["p"]["kind"], "all" if case["all"] else "some")
    note.nontrivial(closed > 1)


@st.composite
def weightings(draw):
    return {"p": draw(points_spec()), "e": draw(ellipse(2, 1.0, 6.0)), "mean": draw(st.booleans()),
            "bound": draw(st.one_of(st.none(), st.tuples(ellipse(2, 2.0, 6.0), st.integers(4, 9)))),
            "axes": draw(st.permutations(VARIABLES))[:2], "global": draw(st.booleans()),
            "procs": draw(st.sampled_from([1, 1, 2])), "again": draw(st.booleans()),
            "weights": draw(st.sampled_from(["one", "set"])),
            "fill": draw(st.sampled_from([None, "none", "weight", "content", "pdf"])),
            "plot": draw(st.integers(0, 2)), "slice": draw(st.tuples(st.integers(0, 5), st.integers(3, 30)))}


def read(bunch):
    return [[h[k] for k in gen.DOUBLES + gen.INTS if k != "local_weight"] for h in bunch]


@FACETS.add(strategy=weightings, quick=100, thorough=1500,
            rule="apply_weights sets local or global weight of each hit inside the bound to the area of its tile, "
                 "closed by the bounding points, times the Gaussian density, and of hits outside to 0, leaving all "
                 "else; the same when applied again or after another bunch; plots have points and tiles of the slice, projected on the "
                 "axes asked for; non-trivial: some hits out, two in closed tiles")
def weight(case, note):
    import numpy
    import xboa.common as Common
    from xboa.bunch.weighting import BoundingEllipse, VoronoiWeighting
    gen.clear_weights()
    points = positions(case["p"], 2)
    axes = case["axes"]
    rng = random.Random(case["p"]["seed"] + 1)
    hits = [dict(zip(axes, p), event_number=i, t=rng.uniform(-5, 5), pid=-13) for i, p in enumerate(points)]
    bunch = gen.make_bunch(hits)
    if case["weights"] == "set":
        for h in bunch:
            h["local_weight"], h["global_weight"] = rng.choice([0.5, 2.0]), rng.choice([0.25, 3.0])
    mean = case["e"]["mean"] if case["mean"] else [0.0, 0.0]
    mean = [m / 10 for m in mean]
    v = numpy.array(case["e"]["v"])
    edge, inside, extra = None, list(range(len(points))), []
    if case["bound"]:
        e, n = case["bound"]
        bv, bm = numpy.array(e["v"]), [m / 10 for m in e["mean"]]
        edge = BoundingEllipse(bv, numpy.array(bm), n)
        r = [form(numpy.linalg.inv(bv), bm, p) for p in points]
        if any(abs(a - 1) < 1e-6 for a in r):
            return
        inside = [i for i, a in enumerate(r) if a < 1]
        extra = numpy.array(edge.bounding_points).tolist()
        if len(inside) < 1:
            return
    w = VoronoiWeighting(axes, v, numpy.array(mean) if case["mean"] else None, edge)
    before = read(bunch)
    name, other = ("global_weight", "local_weight") if case["global"] else ("local_weight", "global_weight")
    others = [h[other] for h in bunch]
    w.apply_weights(bunch, case["global"], case["procs"])
    require(read(bunch) == before, "other values of hits changed")
    require([h[other] for h in bunch] == others, "%s changed" % other)
    sites = [points[i] for i in inside] + extra
    inverse, norm = numpy.linalg.inv(v), math.sqrt((2 * math.pi) ** 2 * numpy.linalg.det(v))
    got = [h[name] for h in bunch]
    closed = 0
    for k, i in enumerate(inside):
        a = area(k, sites)
        if a is None:
            continue
        density = math.exp(-0.5 * form(inverse, mean, points[i])) / norm
        require(abs(got[i] - a[0] * density) <= density * (a[1] + 1e-6 * a[0]),
                "weight of hit %d: %r, want %r" % (i, got[i], a[0] * density))
        closed += a[0] > 0
    for i in range(len(points)):
        require(i in inside or got[i] == 0.0, "hit %d outside has weight %r" % (i, got[i]))
    if case["again"]:
        w.apply_weights(bunch, case["global"])
        require([h[name] for h in bunch] == got and [h[other] for h in bunch] == others, "differs when applied again")
        moved = positions(dict(case["p"], seed=case["p"]["seed"] + 7), 2)
        some = not edge or any(form(numpy.linalg.inv(bv), bm, p) < 1 for p in moved)
        moved = [dict(zip(axes, p), event_number=i, pid=-13) for i, p in enumerate(moved)]
        results = [[]] * 2
        for used in (w, VoronoiWeighting(axes, v, numpy.array(mean) if case["mean"] else None, edge)):
            if not some:
                break
            gen.clear_weights()
            other_bunch = gen.make_bunch(moved)
            used.apply_weights(other_bunch, case["global"])
            results.append([h[name] for h in other_bunch])
        require(results[-1] == results[-2], "weights of a bunch depend on the bunch before", results)
        gen.clear_weights()
        w.apply_weights(bunch, case["global"])
    if case["plot"] == 0:
        check_plot(w, case, [points[i] for i in inside], sites)
    Common.clear_root()
    note.label("bound" if edge else "no bound", name, "%s" % case["p"]["kind"])
    note.nontrivial(closed > 1 and (len(inside) < len(points)))


def check_colours(w, fill, points, low_high, tiles, cells):
    """colours follow the palette in the order of what they show, up to its end for the highest"""
    import numpy
    import ROOT
    if fill in (None, "none"):
        require(len({t.GetFillColor() for t in tiles}) <= 1, "tiles that are not filled differ in colour")
        return
    n = ROOT.TColor.GetNumberOfColors()
    palette = [ROOT.TColor.GetColorPalette(i) for i in range(n)]
    if len(set(palette)) != n:
        return
    low, high = low_high
    value = dict((k, a[0]) for k, a in cells)
    for k in range(low, high):
        value.setdefault(k, 0.0)  # open tiles have no content
        density = w.get_pdf(numpy.array(points[k]))
        value[k] = {"weight": density * value[k], "content": value[k], "pdf": density}[fill]
    lo, hi = min(value.values()), max(value.values())
    if hi - lo < 1e-9 * hi:
        return
    for tile, (k, a) in zip(tiles, cells):
        colour = tile.GetFillColor()
        require(colour in palette, "colour", colour, "is not of the palette")
        place, want = palette.index(colour) / (n - 1.0), (value[k] - lo) / (hi - lo)
        require(abs(place - want) < 1.5 / (n - 1.0), "tile", k, "with", fill, value[k], "between", lo, "and", hi, "has colour",
                palette.index(colour), "of", n)


def check_plot(w, case, points, sites):
    low, high = case["slice"]
    sliced = case["p"]["seed"] % 2
    if sliced and low >= min(high, len(points)):
        return
    flip = case["p"]["seed"] % 3 == 0
    axes = case["axes"][::-1] if flip else case["axes"]
    high = min(high, len(points))
    canvas, hist, graph, tiles = w.plot_two_d_projection(axes, case["fill"], *((low, high) if sliced else ()))
    if not sliced:
        low, high = 0, len(points)
    want = [p[::-1] if flip else p for p in points[low:high]]
    require(graph.GetN() == len(want), "%d points plotted, want %d" % (graph.GetN(), len(want)))
    drawn = sorted([graph.GetPointX(i), graph.GetPointY(i)] for i in range(graph.GetN()))
    for g, p in zip(drawn, sorted(want)):
        require_close(g[0], p[0], "point", 1e-9, 1e-9)
        require_close(g[1], p[1], "point", 1e-9, 1e-9)
    cells = []
    for k in range(low, high):
        a = area(k, sites)
        if a is None:
            return
        if a[0] > 0:
            cells.append((k, a))
    require(len(tiles) == len(cells), "%d tiles plotted, want %d" % (len(tiles), len(cells)))
    for tile, (k, a) in zip(tiles, cells):
        xy = [(tile.GetPointX(i), tile.GetPointY(i)) for i in range(tile.GetN())]
        require(xy[0] == xy[-1], "tile is not closed")
        if flip:
            xy = [(v, u) for u, v in xy]
        x0, y0 = sites[k]
        xy = [(u - x0, v - y0) for u, v in xy]
        found = 0.5 * abs(math.fsum(xy[i][0] * xy[i + 1][1] - xy[i + 1][0] * xy[i][1] for i in range(len(xy) - 1)))
        require(abs(found - a[0]) <= a[1] + 1e-6 * a[0], "area of tile %d drawn: %r, want %r" % (k, found, a[0]))
    check_colours(w, case["fill"], points, (low, high), tiles, cells)
    title = axes[0], axes[1]
    require((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == title, "titles of axes")
