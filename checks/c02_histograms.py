"""C02: binning puts every weighted point in the one bin that contains it."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
VAL = gen.smooth(-10, 10, 40)
EDGES = st.lists(VAL, min_size=2, max_size=8, unique=True).map(sorted)


def place(edges, v):
    """index of the bin [edges[i], edges[i+1]) that holds v, or None"""
    for i in range(len(edges) - 1):
        if edges[i] <= v < edges[i + 1]:
            return i
    return None


@FACETS.add(strategy=lambda: st.tuples(st.lists(st.tuples(VAL, VAL, st.sampled_from([0.0, 1.0, 0.5, 2.0, 3.25])), max_size=30),
                                       EDGES, EDGES, st.booleans(), st.booleans()),
            quick=500, thorough=20000,
            rule="Common.histogram in 1 and 2 dimensions with uneven edges, points on edges and outside: each "
                 "bin [a,b) holds the sum of the weights of its points, the edges are returned, the input "
                 "is unchanged; non-trivial: points inside and outside")
def bins(case, note):
    import xboa.common as Common
    points, xe, ye, two, weighted = case
    x, y, w = [p[0] for p in points], [p[1] for p in points], [p[2] for p in points]
    copies = list(x), list(y), list(w), list(xe), list(ye)
    kw = {"weights": w} if weighted else {}
    got = Common.histogram(x, xe, y, ye, **kw) if two else Common.histogram(x, xe, **kw)
    require((x, y, w, xe, ye) == copies, "input changed")
    ny = len(ye) - 1 if two else 1
    want = {}
    for a, b, c in points:
        i, j = place(xe, a), place(ye, b) if two else 0
        if i is not None and j is not None:
            want[i, j] = want.get((i, j), 0.0) + (c if weighted else 1.0)
    require(got[0].shape == (len(xe) - 1, ny), "shape", got[0].shape)
    for i in range(len(xe) - 1):
        for j in range(ny):
            require_close(got[0][i, j], want.get((i, j), 0.0), "bin %d %d" % (i, j), 1e-12)
    require(list(got[1]) == xe and list(got[2]) == (ye if two else []), "edges returned", got[1], got[2])
    n_in = sum(place(xe, a) is not None for a in x)
    note.label("2D" if two else "1D", "weighted" if weighted else "unweighted")
    note.nontrivial(0 < n_in < len(points))


@FACETS.add(strategy=lambda: st.tuples(st.lists(st.tuples(VAL, st.sampled_from([0.0, 1.0, 1e-7, 0.5])), max_size=12),
                                       st.sampled_from(["none", "same", "other"]), gen.smooth(0, 1, 10),
                                       st.one_of(st.none(), gen.smooth(-20, 0, 20), st.just(0.0)),
                                       st.one_of(st.none(), gen.smooth(0.5, 20, 20), st.just(0.0)),
                                       st.integers(1, 20)),
            quick=400, thorough=15000,
            rule="min_max bounds all points of non-zero weight with the margin asked for, takes given ends "
                 "exactly, never returns an empty range and changes nothing; get_bin_edges are n+1 equally "
                 "spaced edges over that range; non-trivial: some points have weight")
def ranges(case, note):
    import xboa.common as Common
    points, weights, margin, lo, hi, n = case
    x = [p[0] for p in points]
    w = [p[1] for p in points] if weights == "same" else [] if weights == "none" else [1.0] * (len(x) + 2)
    keep = list(x), list(w)
    got = Common.min_max(x, w, margin, lo, hi)
    default = Common.min_max(x)
    require((x, w) == keep, "input changed", x, w)
    live = [p[0] for p in points if p[1] > 1e-6] if weights == "same" else x
    a, b = (min(live), max(live)) if live else (0.0, 0.0)
    a, b = a - (b - a) * margin, b + (b - a) * margin
    if b - a < 1e-9:
        a, b = a - 1, b + 1
    require_close(got[0], a if lo is None else lo, "minimum", 1e-9, 1e-12)
    require_close(got[1], b if hi is None else hi, "maximum", 1e-9, 1e-12)
    if x:
        d = 0.1 * (max(x) - min(x))
        require(default[0] <= min(x) and default[1] >= max(x), "default margin", default)
        require_close(default[1] - default[0], (max(x) - min(x) + 2 * d) if d else 2.0, "default margin", 1e-9)
    edges = Common.get_bin_edges(x, n, lo, hi)
    a, b = (min(x), max(x)) if x else (0.0, 0.0)
    if b - a < 1e-9:
        a, b = a - 1, b + 1
    a, b = a if lo is None else lo, b if hi is None else hi
    require(len(edges) == n + 1, "number of edges", len(edges))
    for i, e in enumerate(edges):
        require_close(e, a + (b - a) * i / n, "edge %d" % i, 1e-9, 1e-9)
    note.label(weights)
    note.nontrivial(len(live) > 1)


@FACETS.add(strategy=lambda: st.tuples(st.one_of(st.integers(0, 100000), st.integers(0, 200)),
                                       st.lists(st.one_of(st.none(), st.integers(1, 50)), min_size=3, max_size=3),
                                       st.integers(1, 3)),
            quick=200, thorough=4000,
            rule="n_bins: given numbers are kept, chosen ones are at least 1 and grow with the number of "
                 "points, unused dimensions are 0 unless given; non-trivial: a number was chosen")
def number_of_bins(case, note):
    import xboa.common as Common
    points, given, dim = case
    got = Common.n_bins(points, given[0], given[1], given[2], dim)
    require(isinstance(got, tuple) and len(got) == 3, got)
    power = {1: 1.0, 2: 0.7, 3: 0.5}[dim]
    for i in range(3):
        want = given[i]
        if want is None:
            want = int(points ** power / 10.0) + 1 if i < dim else 0
        require(got[i] == want, "dimension", i, "of", dim, ":", got[i], "expected", want)
    note.nontrivial(None in given[:dim])


UNITS = {"mm": 1.0, "m": 1e3, "cm": 10.0, "": 1.0}


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from(["x", "y", "px", "r"]), st.sampled_from(sorted(UNITS)),
                                       st.booleans(), st.one_of(st.none(), st.integers(1, 9)),
                                       st.one_of(st.none(), st.integers(1, 9)),
                                       st.one_of(st.none(), gen.smooth(-300, 0, 30)), st.one_of(st.none(), gen.smooth(1, 300, 30)),
                                       st.lists(gen.smooth(-100, 100, 50), min_size=2, max_size=6, unique=True).map(sorted)),
            quick=300, thorough=10000,
            rule="Bunch.histogram and histogram_var_bins in 1 and 2 dimensions, in units, with given or chosen "
                 "bins and limits: edges cover the data or the limits, contents are the weights of the hits "
                 "in each bin; non-trivial: more than one bin filled")
def bunch_histogram(case, note):
    spec, var, unit, two, nx, ny, lo, hi, edges = case
    hits = gen.beam(spec)
    bunch = gen.beam_bunch(hits)
    w = gen.weights_of(hits)
    if UNITS[unit] != 1.0:
        lo = hi = None  # known finding: limits are multiplied by the unit
    var2, unit2 = "py", "MeV/c"
    args = (var, unit) + ((var2, unit2) if two else ("", ""))
    xs = [ref.derived(d, var) / UNITS[unit] for d in hits]
    ys = [d[var2] for d in hits]
    kw = dict((k, v) for k, v in (("nx_bins", nx), ("xmin", lo), ("xmax", hi)) if v is not None)
    if two and ny is not None:
        kw["ny_bins"] = ny
    for got in (bunch.histogram(*args, **kw),
                bunch.histogram_var_bins(var, edges, unit, var2, edges[::1], unit2) if two else
                bunch.histogram_var_bins(var, edges, unit)):
        content, xe, ye = got
        for i in range(len(xe) - 1):
            for j in range(content.shape[1]):
                want = near = 0.0
                for x, y, weight in zip(xs, ys, w):
                    inside = xe[i] <= x < xe[i + 1] and (not two or ye[j] <= y < ye[j + 1])
                    tx = 1e-9 * (1 + abs(x))
                    close = abs(x - xe[i]) < tx or abs(x - xe[i + 1]) < tx or \
                        (two and (abs(y - ye[j]) < 1e-9 * (1 + abs(y)) or abs(y - ye[j + 1]) < 1e-9 * (1 + abs(y))))
                    want += weight if inside else 0.0
                    near += weight if close else 0.0
                require(abs(content[i, j] - want) <= near + 1e-9 * (1 + want), "bin", i, j, "holds", content[i, j],
                        "expected", want)
        if got[1] is not edges:
            n1 = nx if nx is not None else (int(len(hits) ** 0.7 / 10.) + 1 if two else int(len(hits) / 10.) + 1)
            require(len(xe) == n1 + 1, "x bins", len(xe) - 1, "expected", n1)
            require_close(xe[0], min(xs) if lo is None else lo, "first edge", 1e-9, 1e-9)
            require_close(xe[-1], max(xs) if hi is None else hi, "last edge", 1e-9, 1e-9)
            if two:
                n2 = ny if ny is not None else int(len(hits) ** 0.7 / 10.) + 1
                require(len(ye) == n2 + 1, "y bins", len(ye) - 1, "expected", n2)
        filled = (content != 0).sum()
    note.label("2D" if two else "1D", unit)
    note.nontrivial(filled > 1)
