"""B08: ellipse builders and shells give beams with the parameters asked for."""
import math

import numpy
from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
POS = gen.smooth(0.05, 20, 200)
ALPHA = gen.smooth(-3, 3, 60)
EMIT = gen.smooth(0.05, 8, 100)
P0 = gen.smooth(150, 400, 40)
PID = st.sampled_from([-13, 13, 211, 2212])


def points_with(cov):
    """2n points, symmetric about 0, whose covariance is exactly cov"""
    n = len(cov)
    low = numpy.linalg.cholesky(cov) * math.sqrt(n)
    return [sign * low[:, i] for i in range(n) for sign in (1, -1)]


def beam_with(cov, variables, p, pid, geometric):
    """Bunch of total momentum p whose covariance in these variables is cov"""
    from xboa.bunch import Bunch
    gen.clear_weights()
    mass = gen.MASS[abs(pid)]
    hits = []
    for u in points_with(cov):
        d = dict({"x": 0.0, "y": 0.0, "px": 0.0, "py": 0.0, "x'": 0.0, "y'": 0.0}, **dict(zip(variables, u)))
        if geometric:
            pz = p / math.sqrt(1 + d["x'"] ** 2 + d["y'"] ** 2)
            d["px"], d["py"] = d["x'"] * pz, d["y'"] * pz
        else:
            pz2 = p * p - d["px"] ** 2 - d["py"] ** 2
            if pz2 < 1.0:
                return None
            pz = math.sqrt(pz2)
        hits.append({"x": float(d["x"]), "y": float(d["y"]), "px": float(d["px"]), "py": float(d["py"]),
                     "pz": float(pz), "mass": mass, "pid": pid, "energy": math.sqrt(p * p + mass * mass)})
    return Bunch.new_from_hits([gen.make_hit(d) for d in hits])


@FACETS.add(strategy=lambda: st.tuples(POS, ALPHA, EMIT, P0, PID, st.booleans(), st.sampled_from(["x", "y"])),
            quick=500, thorough=20000,
            rule="build_ellipse_2d, kinetic and geometric: a beam made with that covariance has exactly the "
                 "beta, alpha, emittance asked for, gamma (1+alpha^2)/beta, and the matrix is symmetric; "
                 "non-trivial: transverse momentum fits in p")
def twiss_2d(case, note):
    from xboa.bunch import Bunch
    beta, alpha, emit, p, pid, geometric, axis = case
    mass = gen.MASS[abs(pid)]
    beta *= 1000.0 if geometric or True else 1.0
    if geometric:
        emit *= 0.1
    m = Bunch.build_ellipse_2d(beta, alpha, emit, p, mass, geometric)
    require(m.shape == (2, 2) and m[0, 1] == m[1, 0], "matrix", m)
    unit = 1.0 if geometric else mass
    require_close(numpy.linalg.det(m), (emit * unit) ** 2, "determinant", 1e-9 * (1 + alpha ** 2))
    require_close(m[0, 0], beta * emit * (1.0 if geometric else mass / p), "var(x)", 1e-12)
    require_close(m[0, 1], -alpha * emit * unit, "cov", 1e-12)
    require_close(m[1, 1], (1 + alpha ** 2) / beta * emit * (1.0 if geometric else mass * p), "var(p)", 1e-12)
    names = [axis, axis + "'"] if geometric else [axis, "p" + axis]
    bunch = beam_with(numpy.array(m), names, p, pid, geometric)
    if bunch is None:
        return
    rel = 1e-7 * (1 + alpha ** 2)
    require_close(bunch.get_emittance([axis], geometric=geometric), emit, "emittance", rel)
    require_close(bunch.get_beta([axis], geometric=geometric), beta, "beta", rel)
    require_close(bunch.get_alpha([axis], geometric=geometric), alpha, "alpha", rel, 1e-8)
    require_close(bunch.get_gamma([axis], geometric=geometric), (1 + alpha ** 2) / beta, "gamma", rel)
    note.label("geometric" if geometric else "kinetic")
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(POS, ALPHA, EMIT, P0, PID, gen.smooth(-2, 2, 40), gen.smooth(-4e-3, 4e-3, 40),
                                       st.sampled_from([1, -1])),
            quick=500, thorough=20000,
            rule="build_penn_ellipse with any field and angular momentum: a beam made with that covariance has "
                 "the transverse beta, alpha, emittance asked for, is cylindrically symmetric, and (positive "
                 "charge) has canonical angular momentum 2 m emittance L; non-trivial: field and L not 0")
def penn(case, note):
    from xboa.bunch import Bunch
    beta, alpha, emit, p, pid, l_twiddle, bz, q = case
    beta *= 100.0
    mass = gen.MASS[abs(pid)]
    m = Bunch.build_penn_ellipse(emit, mass, beta, alpha, p, l_twiddle, bz, q)
    require(m.shape == (4, 4) and (m == m.T).all(), "not symmetric", m)
    require((numpy.linalg.eigvalsh(m) > 0).all(), "not positive", m)
    # rotation by 90 degrees: (x, y) -> (y, -x)
    rot = numpy.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [0, -1, 0, 0]])
    require(numpy.abs(rot @ numpy.array(m) @ rot.T - m).max() <= 1e-9 * numpy.abs(m).max(), "not cylindrical", m)
    k = ref.C * bz / 2 / p
    size = max(1.0, (1 + alpha ** 2 + (beta * k - l_twiddle) ** 2))
    bunch = beam_with(numpy.array(m), ["x", "px", "y", "py"], p, pid, False)
    if bunch is None:
        return
    rel = 1e-7 * size
    require_close(bunch.get_emittance(["x", "y"]), emit, "emittance", rel)
    require_close(bunch.get_beta(["x", "y"]), beta, "beta", rel)
    require_close(bunch.get_alpha(["x", "y"]), alpha, "alpha", rel, 1e-8)
    require_close(bunch.get_gamma(["x", "y"]), (1 + alpha ** 2 + (beta * k - l_twiddle) ** 2) / beta, "gamma", rel)
    kin = bunch.get_kinetic_angular_momentum()
    require_close(kin, -2 * emit * mass * (beta * k - l_twiddle) * q, "kinetic angular momentum", 1e-7,
                  1e-8 * emit * mass * size)
    if q == 1:
        require_close(bunch.get_canonical_angular_momentum(bz), 2 * mass * emit * l_twiddle,
                      "canonical angular momentum", 1e-7, 1e-8 * emit * mass * size)
    note.nontrivial(bz != 0 and l_twiddle != 0)


@FACETS.add(strategy=lambda: st.tuples(st.sampled_from(["2d", "penn"]), st.sampled_from(["beta", "emit", "mass"]),
                                       gen.smooth(-5, 0, 20), st.booleans()),
            quick=80, thorough=600,
            rule="a beta, emittance or (penn) mass that is zero or negative is refused with ValueError or "
                 "ZeroDivisionError; non-trivial: all")
def refused(case, note):
    from xboa.bunch import Bunch
    which, what, value, geometric = case
    if which == "2d" and what == "mass":
        what = "beta"
    beta, emit, mass = 100.0, 2.0, 105.6
    beta, emit, mass = (value if what == "beta" else beta, value if what == "emit" else emit,
                        value if what == "mass" else mass)
    try:
        if which == "2d":
            m = Bunch.build_ellipse_2d(beta, 0.5, emit, 200.0, mass, geometric)
        else:
            m = Bunch.build_penn_ellipse(emit, mass, beta, 0.5, 200.0, 0.1, 1e-3, 1)
    except (ValueError, ZeroDivisionError):
        note.nontrivial()
        return
    require(False, which, "accepted", what, value, "giving", m)


SHELL_VARS = st.sampled_from([["x"], ["x", "y"], ["x", "px"], ["x", "px", "y"], ["y", "py", "t"], ["x", "px", "y", "py"],
                              ["x", "px", "t", "energy"], ["px", "py"]])


@FACETS.add(strategy=lambda: st.tuples(st.integers(2, 4), SHELL_VARS, st.integers(0, 10**6), PID,
                                       st.sampled_from(["energy", "pz"]), st.lists(gen.smooth(-20, 20, 20), min_size=4, max_size=4)),
            quick=200, thorough=4000,
            rule="new_hit_shell: n^d hits (one less if n is odd), event numbers 0, 1, 2..., every hit at "
                 "distance 1 from the default position in the metric of the ellipse, distinct, on mass "
                 "shell, everything else as in the defaults; non-trivial: two or more dimensions")
def hit_shell(case, note):
    from xboa.bunch import Bunch
    n, variables, seed, pid, shell, off = case
    gen.clear_weights()
    d = len(variables)
    if n ** d > 100:
        n = 3 if 3 ** d <= 100 else 2
    rng = numpy.random.RandomState(seed)
    a = rng.uniform(-1, 1, (d, d)) + 1.5 * numpy.eye(d)
    ellipse = numpy.matrix(a @ a.T)
    mass = gen.MASS[abs(pid)]
    if "energy" in variables:
        shell = "pz"
    defaults = {"pid": pid, "mass": mass, "pz": 200.0, "energy": math.sqrt(mass ** 2 + 200.0 ** 2) + 30.0, "x": off[0], "y": off[1],
                "px": off[2], "py": off[3], "bz": 1e-3, "station": 7, "t": 3.0}
    given = dict(defaults)
    bunch = Bunch.new_hit_shell(n, ellipse, list(variables), shell, defaults)
    require(defaults == given, "defaults changed")
    require(len(bunch) == n ** d - n % 2, "number of hits", len(bunch), "for n", n, "d", d)
    inv = numpy.linalg.inv(ellipse)
    seen = set()
    for i, hit in enumerate(bunch):
        u = numpy.array([hit[v] - given.get(v, 0.0) for v in variables])
        require_close(u @ numpy.array(inv) @ u, 1.0, "distance of hit %d" % i, 1e-6)
        seen.add(tuple(round(float(x), 6) for x in u))
        require(hit["event_number"] == i, "event number", hit["event_number"], "of hit", i)
        require_close(hit["energy"] ** 2, mass ** 2 + hit["px"] ** 2 + hit["py"] ** 2 + hit["pz"] ** 2,
                      "mass shell", 1e-9)
        for v in ("x", "y", "t", "bz", "station", "pid", "mass", "px", "py"):
            if v not in variables:
                require(hit[v] == given.get(v, 0.0), v, hit[v])
    # opposite points both present
    for u in seen:
        require(any(all(abs(a + b) < 1e-4 for a, b in zip(u, w)) for w in seen), "no point opposite", u)
    if n <= 3:
        require(len(seen) == len(bunch), "repeated points:", len(bunch) - len(seen))
    note.label("d %d" % d)
    note.nontrivial(d > 1)
