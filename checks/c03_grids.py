"""C03: grids and shells have the promised points, each exactly where it should be."""
import itertools
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@FACETS.add(strategy=lambda: st.one_of(st.tuples(st.integers(1, 5), st.integers(1, 4)), st.tuples(st.integers(1, 2), st.integers(1, 15))),
            quick=60, thorough=150,
            rule="make_grid(d, n) is every one of the n^d combinations of n equally spaced values from -1 to 1, once "
                 "each, first dimension fastest, all independent arrays of shape (1, d); non-trivial: d > 1 and n > 1")
def grid(case, note):
    import xboa.common as Common
    d, n = case
    got = Common.make_grid(d, n)
    line = [-1.0] if n == 1 else [-1.0 + 2.0 * i / (n - 1) for i in range(n)]
    require(len(got) == n ** d, "points", len(got), "expected", n ** d)
    want = sorted(itertools.product(line, repeat=d))
    found = sorted(tuple(p[0, i] for i in range(d)) for p in got)
    for p, q in zip(found, want):
        for a, b in zip(p, q):
            require_close(a, b, "grid coordinate", 1e-12, 1e-12)
    got[0][0, 0] = 7.0
    require(all(p[0, 0] <= 1.0 + 1e-9 for p in got[1:]), "points share data")
    note.label("%dD" % d)
    note.nontrivial(d > 1 and n > 1)


@st.composite
def ellipses(draw, dmax=4):
    d = draw(st.integers(1, dmax))
    low = [[draw(gen.smooth(-2, 2, 64)) if j < i else draw(gen.smooth(0.2, 5, 64)) if i == j else 0.0 for j in range(d)]
           for i in range(d)]
    return [[math.fsum(low[i][k] * low[j][k] for k in range(d)) for j in range(d)] for i in range(d)]


@FACETS.add(strategy=lambda: st.tuples(ellipses(), st.one_of(st.integers(2, 5), st.integers(6, 60)), st.booleans(), st.lists(gen.smooth(-50, 50, 100), min_size=4, max_size=4)),
            quick=150, thorough=3000,
            rule="make_shell(n, V, mean) has n^d points, less the centre if n is odd; each p fulfils "
                 "(p-mean)^T V^-1 (p-mean) = 1, the directions are those of the grid, each once, and V and mean "
                 "are unchanged; non-trivial: d > 1 and a mean")
def shell(case, note):
    import numpy
    import xboa.common as Common
    v, n, with_mean, mean = case
    d = len(v)
    while n ** d > 700:
        n = 3 if n < 6 else n // 2
    mean = mean[:d] if with_mean else [0.0] * d
    matrix = numpy.matrix(v)
    mean_in = numpy.array(mean)
    got = Common.make_shell(n, matrix, mean_in) if with_mean else Common.make_shell(n, matrix)
    require((matrix == numpy.matrix(v)).all() and list(mean_in) == mean, "input changed")
    want = n ** d - (n % 2)
    require(len(got) == want, "points", len(got), "expected", want)
    inv = numpy.linalg.inv(numpy.array(v))
    cond = numpy.linalg.cond(numpy.array(v))
    line = [-1.0 + 2.0 * i / (n - 1) for i in range(n)]
    directions = []
    for p in got:
        q = numpy.array(p).flatten() - numpy.array(mean)
        require_close(q.dot(inv).dot(q), 1.0, "x^T V^-1 x", 1e-9 * cond + 1e-7)
        q = q / max(abs(q))
        directions.append(tuple(round(float(a), 5) + 0.0 for a in q))
    expect = []
    for c in itertools.product(line, repeat=d):
        m = max(abs(a) for a in c)
        if m > 1e-9:
            expect.append(tuple(round(a / m, 5) + 0.0 for a in c))
    for a, b in zip(sorted(directions), sorted(expect)):
        for x, y in zip(a, b):
            require(abs(x - y) < 1e-4, "direction", a, "expected", b)
    note.label("%dD" % d, "odd" if n % 2 else "even")
    note.nontrivial(d > 1 and with_mean)


@FACETS.add(strategy=lambda: st.tuples(ellipses(), st.lists(gen.smooth(-10, 10, 100), min_size=4, max_size=4),
                                       st.sampled_from([-6, -1, 0, 0, 4])),
            quick=150, thorough=3000,
            rule="normalise_vector scales a vector of any length onto the ellipse by a positive factor and leaves its argument "
                 "alone; non-trivial: d > 1")
def normalised(case, note):
    import numpy
    import xboa.common as Common
    v, vec, power = case
    d = len(v)
    vec = vec[:d]
    if max(abs(a) for a in vec) == 0:
        return
    vec = [a * 10.0 ** power for a in vec]
    inv = numpy.linalg.inv(numpy.matrix(v))
    row = numpy.matrix([vec])
    got = Common.normalise_vector(row, inv)
    require(list(numpy.array(row).flatten()) == vec, "input changed")
    out = numpy.array(got).flatten()
    scale = max(abs(out)) / max(abs(a) for a in vec)
    for a, b in zip(out, vec):
        require_close(a, b * scale, "direction", 1e-9, 1e-9 * max(abs(c) for c in out))
    inv = numpy.array(inv)
    require_close(out.dot(inv).dot(out), 1.0, "norm", 1e-8 * numpy.linalg.cond(inv) + 1e-8)
    note.nontrivial(d > 1)
