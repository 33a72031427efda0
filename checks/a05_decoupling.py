"""A05: DecoupledTransferMatrix finds the optics of any stable symplectic matrix."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@st.composite
def symplectic(draw):
    n = draw(st.integers(1, 3))
    # phases well apart, so that planes can be told from each other
    base = draw(st.permutations([0.5, 1.2, 2.0, 2.7]))[:n]
    mu = [(b + draw(gen.smooth(-0.15, 0.15, 60))) * draw(st.sampled_from([1, -1])) for b in base]
    optics = [[draw(gen.smooth(0.3, 5, 200)), draw(gen.smooth(-2, 2, 200))] for _ in range(n)]
    coupling = [draw(gen.smooth(-0.5, 0.5, 100)) for _ in range(n * (2 * n + 1))] if draw(st.booleans()) else None
    return {"n": n, "mu": mu, "optics": optics, "coupling": coupling,
            "emittances": [draw(gen.smooth(0.1, 10, 990)) for _ in range(n)],
            "kind": draw(st.sampled_from(["list", "array", "matrix"]))}


def form(n):
    import numpy
    s = numpy.zeros((2 * n, 2 * n))
    for i in range(n):
        s[2 * i, 2 * i + 1], s[2 * i + 1, 2 * i] = 1.0, -1.0
    return s


def build(case):
    import numpy
    import scipy.linalg
    n = case["n"]
    t = numpy.zeros((2 * n, 2 * n))
    for i, (mu, (b, a)) in enumerate(zip(case["mu"], case["optics"])):
        c, s = math.cos(mu), math.sin(mu)
        t[2 * i:2 * i + 2, 2 * i:2 * i + 2] = [[c + a * s, b * s], [-(1 + a * a) / b * s, c - a * s]]
    if case["coupling"] is None or n == 1:
        return t
    h = numpy.zeros((2 * n, 2 * n))
    values = iter(case["coupling"])
    for i in range(2 * n):
        for j in range(i + 1):
            h[i, j] = h[j, i] = next(values)
    r = scipy.linalg.expm(form(n).dot(h))
    return r.dot(t).dot(numpy.linalg.inv(r))


def make(m, kind="list"):
    import numpy
    from xboa.algorithms.decoupled_transfer_matrix import DecoupledTransferMatrix
    given = {"list": m.tolist(), "array": m.copy(), "matrix": [list(r) for r in m]}[kind]
    return DecoupledTransferMatrix(given), given


@FACETS.add(strategy=symplectic, quick=250, thorough=10000,
            rule="t is block diagonal and r brings it back to the matrix; each block has the phase advance of one of "
                 "the planes and the beta, alpha and gamma returned, beta gamma - alpha^2 = 1, beta > 0; r keeps "
                 "the symplectic form up to its sign in a plane; non-trivial: coupled planes")
def optics(case, note):
    import numpy
    m = build(case)
    d, given = make(m, case["kind"])
    n = case["n"]
    tolerance = 1e-7 * (1 + abs(m).max()) ** 3
    r, t = numpy.array(d.r), numpy.array(d.t)
    require(abs(r.dot(t) - m.dot(r)).max() < tolerance, "r t r^-1 is not the matrix")
    require(abs(t.imag).max() < tolerance and abs(r.imag).max() < tolerance, "t or r is not real")
    t, r = t.real, r.real
    for i in range(n):
        for j in range(n):
            if i != j:
                require(abs(t[2 * i:2 * i + 2, 2 * j:2 * j + 2]).max() < tolerance, "t is not block diagonal")
    kept = r.T.dot(form(n)).dot(r)
    keeps = kept.dot(form(n)).max() < 0.5  # no plane is turned over
    require(abs(abs(kept) - abs(form(n))).max() < tolerance, "r does not keep areas: %r" % kept)
    found = []
    for i in range(n):
        beta, alpha, gamma, mu = d.get_beta(i), d.get_alpha(i), d.get_gamma(i), d.get_phase_advance(i)
        require(beta > 0, "beta %r" % beta)
        require_close(beta * gamma - alpha ** 2, 1.0, "beta gamma - alpha^2", 1e-7)
        c, s = math.cos(mu), math.sin(mu)
        best = max(abs(t[2 * i, 2 * i] - c - alpha * s), abs(t[2 * i, 2 * i + 1] - beta * s),
                   abs(t[2 * i + 1, 2 * i] + gamma * s), abs(t[2 * i + 1, 2 * i + 1] - c + alpha * s))
        require(best < tolerance * (1 + beta + gamma), "block %d does not have the optics: off by %r" % (i, best))
        found.append((c, s))
    for got, want in zip(sorted(found), sorted((math.cos(mu), math.sin(mu)) for mu in case["mu"])):
        require_close(got[0], want[0], "cosine of phase advance", 0, tolerance)
        require_close(got[1], want[1] if keeps else math.copysign(want[1], got[1]), "sine of phase advance", 0,
                      10 * tolerance)
    if n == 1:
        require_close(d.get_beta(0), case["optics"][0][0], "beta in one plane", 1e-6)
        require_close(d.get_alpha(0), case["optics"][0][1], "alpha in one plane", 1e-6, 1e-9)
    require(numpy.array_equal(numpy.array(given), m), "matrix changed")
    note.label("%d planes" % n, "coupled" if case["coupling"] and n > 1 else "uncoupled", case["kind"])
    note.nontrivial(case["coupling"] is not None and n > 1)


@FACETS.add(strategy=symplectic, quick=250, thorough=10000,
            rule="get_v_m gives a real symmetric positive ellipse that the matrix maps to itself and whose eigen "
                 "emittances are those asked for; linear in each; non-trivial: coupled planes")
def ellipses(case, note):
    import numpy
    m = build(case)
    d, _ = make(m)
    n, eps = case["n"], list(case["emittances"])
    v = numpy.array(d.get_v_m(eps))
    require(eps == case["emittances"], "emittances changed")
    require(v.shape == (2 * n, 2 * n) and not numpy.iscomplexobj(v), "shape %r" % (v.shape,))
    size = abs(v).max() * (1 + abs(m).max()) ** 3
    require(abs(v - v.T).max() < 1e-9 * size, "not symmetric")
    require(numpy.linalg.eigvalsh(v).min() > 0, "not positive")
    require(abs(m.dot(v).dot(m.T) - v).max() < 1e-8 * size, "not periodic")
    own = sorted(abs(numpy.linalg.eigvals(form(n).dot(v))))
    for i, want in enumerate(sorted(eps)):
        require_close(own[2 * i], want, "eigen emittance", 1e-6 * (1 + abs(m).max()))
        require_close(own[2 * i + 1], want, "eigen emittance", 1e-6 * (1 + abs(m).max()))
    single = sum(e * numpy.array(d.get_v_m([1.0 if i == j else 0.0 for j in range(n)])) for i, e in enumerate(eps))
    require(abs(single - v).max() < 1e-9 * size, "not linear in the emittances")
    if case["coupling"] is None or n == 1:
        for i, (b, a) in enumerate(case["optics"]):
            e = [w for w in eps if abs(v[2 * i, 2 * i] - b * w) < 1e-6 * (1 + b * w)]
            require(e, "plane %d: V11 %r is not beta times an emittance" % (i, v[2 * i, 2 * i]))
            require_close(v[2 * i, 2 * i + 1], -a * e[0], "V12", 1e-6, 1e-6)
    again = numpy.array(d.get_v_m(eps))
    require(abs(again - v).max() < 1e-12 * size, "differs when asked again")
    note.label("%d planes" % n)
    note.nontrivial(case["coupling"] is not None and n > 1)


@FACETS.add(strategy=lambda: st.tuples(symplectic(), st.sampled_from(["odd", "shape", "scaled", "scaled", "swapped", "few", "many"]),
                                       st.sampled_from([0.5, 0.9, 0.999, 1.001, 1.1, 2.0])),
            quick=120, thorough=2000,
            rule="matrices that are not square, of odd size or of determinant other than 1 and the wrong number of "
                 "emittances raise ValueError; non-trivial: all")
def refused(case, note):
    import numpy
    case, kind, factor = case
    m = build(case)
    n = case["n"]
    if kind == "odd":
        m = numpy.eye(2 * n + 1)
    elif kind == "shape":
        m = numpy.zeros((2 * n, 2 * n + 2))
    elif kind == "scaled":
        m = m * factor
    elif kind == "swapped":
        m = m[[1, 0] + list(range(2, 2 * n))]
    try:
        d, _ = make(m)
        require(kind in ("few", "many"), "%s matrix accepted" % kind)
        d.get_v_m(case["emittances"][1:] if kind == "few" else case["emittances"] + [1.0])
    except ValueError:
        pass
    else:
        require(False, "%s emittances accepted" % kind)
    note.label(kind)
    note.nontrivial(True)
