"""C04: fit_ellipse is the weighted ellipse of the points inside its cut."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@st.composite
def clouds(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(d + 2, 25))
    core = [[draw(gen.smooth(-5, 5, 1000)) for _ in range(d)] for _ in range(n)]
    if draw(st.booleans()):
        k = draw(st.integers(1, 3))
        core += [[draw(gen.smooth(-60, 60, 1000)) for _ in range(d)] for _ in range(k)]
    w = draw(st.one_of(st.none(), st.lists(st.sampled_from([1.0, 0.0, 0.5, 2.0, 3.0]), min_size=len(core), max_size=len(core))))
    cut = draw(st.one_of(st.just(1e12), gen.smooth(1, 30, 300), gen.smooth(30, 2000, 300)))
    return {"points": core, "weights": w, "cut": cut, "iterations": draw(st.integers(1, 12)),
            "power": draw(st.one_of(st.integers(-30, 30), st.integers(-12, -4)))}


def moments(points, weights):
    d = len(points[0])
    total = math.fsum(weights)
    mean = [math.fsum(w * p[i] for p, w in zip(points, weights)) / total for i in range(d)]
    cov = [[math.fsum(w * (p[i] - mean[i]) * (p[j] - mean[j]) for p, w in zip(points, weights)) / total
            for j in range(d)] for i in range(d)]
    return mean, cov


def model(points, cut, weights, iterations):
    """Follows the documented procedure; None when a decision is too close to call."""
    import numpy
    d = len(points[0])
    inside = [True] * len(points)
    dropped = False
    old = None
    for i in range(iterations):
        sub = [p for p, k in zip(points, inside) if k]
        sw = [w for w, k in zip(weights, inside) if k]
        if len(sub) <= d or math.fsum(sw) <= 0:
            return None
        mean, cov = moments(sub, sw)
        c = numpy.array(cov)
        det = numpy.linalg.det(c)
        if not det > 1e-3 or numpy.linalg.cond(c) > 1e6 or (old is None and abs(det - 1.0) < 1e-6):
            return None
        inv = numpy.linalg.inv(c)
        now = []
        for p in points:
            q = numpy.array(p) - numpy.array(mean)
            eps = q.dot(inv).dot(q) * det ** (1.0 / d)
            if abs(eps - cut) < 1e-6 * cut:
                return None
            now.append(bool(eps < cut))
        dropped = dropped or not all(now)
        stop = old is not None and now == inside
        inside, old = now, det
        if stop:
            break
    return mean, cov, dropped


def fit(case, points=None, weights=0, **kw):
    import xboa.common as Common
    return Common.fit_ellipse(case["points"] if points is None else points, case["cut"],
                              case["weights"] if weights == 0 else weights, case["iterations"], False, **kw)


@FACETS.add(strategy=clouds, quick=400, thorough=15000,
            rule="mean and matrix are the weighted mean and covariance of the points within the cut of the "
                 "ellipse before, iterated to a fixed point or the maximum; points and weights unchanged; "
                 "the order of points, a factor on all weights and the unit of the points do not matter; non-trivial: points were cut")
def fits(case, note):
    points, weights = case["points"], case["weights"]
    unit = [1.0] * len(points) if weights is None else weights
    keep = [list(p) for p in points], None if weights is None else list(weights)
    want = model(points, case["cut"], unit, case["iterations"])
    if want is None:
        return
    mean, cov, dropped = want
    d = len(mean)
    scale = max(abs(c) for row in cov for c in row) + max(abs(m) for m in mean) ** 2
    results = [("fit", fit(case)), ("tuples", fit(case, [tuple(p) for p in points]))]
    require((points, weights) == keep, "input changed")
    results.append(("reversed", fit(case, points[::-1], None if weights is None else weights[::-1])))
    results.append(("weights times 4", fit(case, points, [4.0 * w for w in unit])))
    s = 2.0 ** case["power"]  # the unit the points are in does not matter
    m, c = fit(dict(case, cut=case["cut"] * s * s), [[s * v for v in p] for p in points])
    results.append(("in units of 2**%d" % case["power"],
                    ([v / s for v in m], [[v / s / s for v in row] for row in c])))
    for what, (m, c) in results:
        for i in range(d):
            require_close(m[i], mean[i], "%s mean %d" % (what, i), 1e-7, 1e-9 * (1 + scale) ** 0.5)
            for j in range(d):
                require_close(c[i][j], cov[i][j], "%s cov %d %d" % (what, i, j), 1e-7, 1e-8 * (1 + scale))
    note.label("%dD" % d, "cut" if dropped else "all", "weights" if weights else "no weights")
    note.nontrivial(dropped)


@FACETS.add(strategy=clouds, quick=150, thorough=5000,
            rule="a fit that cannot be completed (no point left, flat cloud) still returns a mean and a matrix and "
                 "raises nothing; non-trivial: flat or empty")
def degenerate(case, note):
    points = [p[:1] * len(p) for p in case["points"]]
    weights = [1.0] * len(points)
    got = fit(case, points, weights)
    require(len(got) == 2 and got[0] is not None and got[1] is not None, got)
    tiny = dict(case, cut=1e-30)
    got = fit(tiny)
    require(len(got) == 2, got)
    note.nontrivial(len(points[0]) > 1)
