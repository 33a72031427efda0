"""B05: the internal covariance matrix is a cache: same answers while the bunch is unchanged."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
AXES = st.lists(st.sampled_from(["x", "y", "z", "t", "ct"]), min_size=1, max_size=3, unique=True).filter(
    lambda a: not ("t" in a and "ct" in a) and not ("z" in a and ("t" in a or "ct" in a)))
NAMES = ["x", "px", "y", "py", "z", "pz", "t", "energy", "ct", "energy"]
GNAMES = ["x", "x'", "y", "y'", "z", "z'", "t", "t'", "ct", "ct'"]


def answers(bunch, axes, hit):
    from xboa.bunch import Bunch
    geometric = Bunch.get_geometric_momentum()
    out = {"emittance": bunch.get_emittance(axes), "beta": bunch.get_beta(axes),
           "alpha": bunch.get_alpha(axes), "gamma": bunch.get_gamma(axes),
           "amplitude": Bunch.get_amplitude(bunch, hit, axes)}
    names = GNAMES if geometric else NAMES
    for a in axes:
        i = names.index(a)
        for b in (names[i], names[i + 1]):
            out["mean " + b] = bunch.mean([b])[b]
            for c in (names[i], names[i + 1]):
                out["moment %s %s" % (b, c)] = bunch.moment([b, c])
    about = bunch.covariance_matrix([names[2], names[0], names[1]], {"x": 3.0, names[1]: -40.0})
    for i in range(3):
        for j in range(3):
            out["moment about a point %d %d" % (i, j)] = about[i, j]
    out["moment about"] = bunch.moment([names[1], "y"], {"y": -7.0})
    out["sd about"] = bunch.standard_deviation("y", -7.0)
    cov = bunch.covariance_matrix(names[0:4])
    for i in range(4):
        for j in range(4):
            out["cov %d %d" % (i, j)] = cov[i, j]
    if not geometric:
        out["dispersion"] = bunch.get_dispersion("x")
        out["dispersion prime"] = bunch.get_dispersion_prime("y")
        out["amplitude variable"] = bunch.list_get_hit_variable(["amplitude x y"])[0][0]
    out["sd"] = bunch.standard_deviation("x")
    return out


def other_kind(bunch, axes, hit):
    """Asked for the kind of momenta that the internal matrix, if there is one, is not about"""
    from xboa.bunch import Bunch
    axes = [a for a in axes if a in "xy"] or ["x"]
    kind = not Bunch.get_geometric_momentum()
    return {"emittance": bunch.get_emittance(axes, None, kind), "alpha": bunch.get_alpha(axes, kind),
            "beta": bunch.get_beta(axes, kind), "gamma": bunch.get_gamma(axes, kind),
            "amplitude": Bunch.get_amplitude(bunch, hit, axes, geometric=kind), "cov": 0.0}


def compare(got, want, what, rel=1e-5):
    require(set(got) == set(want), what)
    scale = max(abs(v) for k, v in want.items() if k.startswith(("cov", "moment")))
    for k in want:
        tol = 1e-8 * scale if k.startswith(("cov", "moment", "mean")) else 1e-6
        require_close(got[k], want[k], "%s: %s" % (what, k), rel, tol)


def good_axes(spec, axes):
    return not (spec["mix"] > 0.95 or spec["n"] < 14)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, AXES, st.booleans(),
                                       st.lists(st.sampled_from(["translate", "cut", "append", "on", "off"]),
                                                max_size=5)),
            quick=300, thorough=10000,
            rule="history of turning the internal covariance matrix on and off and changing the bunch: when "
                 "off, or on and refreshed since the last change, every moment, emittance, Twiss parameter "
                 "and amplitude is that of a bunch without it; when on, the answers are those of the last "
                 "refresh; asked for the other kind of momenta, those of a bunch without it; non-trivial: compared while on")
def cache(case, note):
    from xboa.bunch import Bunch
    spec, axes, geometric, ops = case
    hits = gen.beam(spec, 20)
    bunch = gen.beam_bunch(hits)
    probe = gen.make_hit(dict(hits[0], x=12.0, y=-7.0))
    Bunch.set_geometric_momentum(geometric)
    try:
        if geometric:
            axes = [a for a in axes if a in "xy"] or ["x"]

        def plain():
            """the answers of a bunch of the same hits that never had a cache"""
            return answers(Bunch.new_from_hits(bunch.hits()), axes, probe)
        last = None
        for op in ["on"] + ops:
            if op == "on":
                bunch.set_covariance_matrix()
                last = plain()
            elif op == "off":
                bunch.set_covariance_matrix(False)
                last = None
            elif op == "translate":
                bunch.abelian_transformation(["x", "px"], [[1.5, 0.1], [-0.05, 0.9]], {"x": 3.0}, {}, "energy")
            elif op == "cut":
                bunch.cut({"x": bunch[0]["x"] + 20.0}, lambda a, b: a > b)
            elif op == "append":
                bunch.append(gen.make_hit(dict(hits[0], x=1.0, px=2.5, pz=150.0)))
            if abs(bunch.bunch_weight()) < 1e-6 or sum(1 for h in bunch if h["weight"] > 0) < 9:
                return
            require(bunch.covariances_set() == (last is not None), op, "covariances_set")
            require(bunch.means_set() == (last is not None), op, "means_set")
            if op in ("on", "off") or last is None:     # a stale matrix gives its position moments
                compare(other_kind(bunch, axes, probe), other_kind(Bunch.new_from_hits(bunch.hits()), axes, probe),
                        "other kind of momenta after " + op)
            if last is None:
                compare(answers(bunch, axes, probe), plain(), "without cache after " + op)
            else:
                got = answers(bunch, axes, probe)
                if op != "on":  # stale, as documented; mean p and the hit itself are not cached
                    for k in ("beta", "gamma", "amplitude variable"):
                        got.pop(k, None)
                want = dict((k, v) for k, v in last.items() if k in got)
                compare(got, want, "with cache after " + op)
        note.label("geometric" if geometric else "kinetic", *axes)
        note.nontrivial(True)
    finally:
        Bunch.set_geometric_momentum(False)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, AXES, st.integers(0, 10**6), st.booleans()),
            quick=250, thorough=8000,
            rule="a supplied 10x10 matrix and means are what emittance, Twiss parameters, moments (about the mean or a given "
                 "point) and amplitudes are calculated from, whatever the hits, for any axis list in any order; "
                 "without supplied means, the bunch means; non-trivial: all")
def supplied(case, note):
    import numpy
    import random
    from xboa.bunch import Bunch
    spec, axes, seed, with_means = case
    hits = gen.beam(spec, 12)
    bunch = gen.beam_bunch(hits)
    rng = numpy.random.RandomState(seed)
    a = rng.uniform(-1, 1, (10, 10)) + 3 * numpy.eye(10)
    full = a @ a.T
    # ct rows are t rows in the units of ct, the two energies are the same variable
    full[8] = full[6] * ref.C
    full[:, 8] = full[:, 6] * ref.C
    full[8, 8] = full[6, 6] * ref.C ** 2
    full[9] = full[7]
    full[:, 9] = full[:, 7]
    full[9, 9] = full[7, 7]
    means = {n: float(m) for n, m in zip(NAMES, rng.uniform(-5, 5, 10))}
    if with_means:
        bunch.set_covariance_matrix(True, numpy.matrix(full), dict(means))
    else:
        bunch.set_covariance_matrix(True, numpy.matrix(full))
        model = ref.Bunch(hits, gen.weights_of(hits))
        means = {n: model.mean(n) for n in NAMES}
    idx = []
    for ax in axes:
        i = NAMES.index(ax)
        idx += [i, i + 1]
    sub = full[numpy.ix_(idx, idx)]
    mass = hits[0]["mass"]
    n = len(axes)
    p = ref.Bunch(hits, gen.weights_of(hits)).mean("p")
    emit = numpy.linalg.det(sub) ** (0.5 / n) / mass
    require_close(bunch.get_emittance(axes), emit, "emittance %r" % axes, 1e-7)
    require_close(bunch.get_beta(axes), sum(sub[2 * i, 2 * i] for i in range(n)) * p / (emit * mass * n),
                  "beta", 1e-7)
    require_close(bunch.get_gamma(axes), sum(sub[2 * i + 1, 2 * i + 1] for i in range(n)) / (p * emit * mass * n),
                  "gamma", 1e-7)
    cross = sum(sub[2 * i, 2 * i + 1] for i in range(n))
    require_close(bunch.get_alpha(axes), -cross / (emit * mass * n), "alpha", 1e-7, 1e-9)
    hit = bunch[len(bunch) // 2]
    u = numpy.array([ref.derived(hits[len(bunch) // 2], NAMES[i]) - means[NAMES[i]] for i in idx])
    amp = float(u @ numpy.linalg.inv(sub) @ u) * emit
    require_close(Bunch.get_amplitude(bunch, hit, axes), amp, "amplitude", 1e-6, 1e-9)
    i, j = idx[0], idx[-1]
    require_close(bunch.moment([NAMES[i], NAMES[j]]), full[i, j], "moment", 1e-12)
    origin = {NAMES[i]: means[NAMES[i]] + 2.0, NAMES[j]: means[NAMES[j]] - 3.0 if i != j else means[NAMES[j]] + 2.0}
    require_close(bunch.moment([NAMES[i], NAMES[j]], origin), full[i, j] + (-6.0 if i != j else 4.0), "moment about a point", 1e-7, 1e-9)
    require_close(bunch.moment([NAMES[i], NAMES[j]], {NAMES[i]: -1.0}), full[i, j] + (0.0 if i != j else (means[NAMES[i]] + 1.0) ** 2),
                  "moment about a point in one", 1e-7, 1e-9)
    require_close(bunch.mean([NAMES[i]])[NAMES[i]], means[NAMES[i]], "mean", 1e-9, 1e-9)
    # third moments and other variables are still those of the hits
    model = ref.Bunch(hits, gen.weights_of(hits))
    require_close(bunch.moment(["bz", "bz"], {"bz": 0.0}), model.moment(["bz", "bz"], {"bz": 0.0}), "bz", 1e-9)
    require_close(bunch.moment(["x"] * 3, {"x": 1.0}), model.moment(["x"] * 3, {"x": 1.0}), "third moment",
                  1e-9, 1e-9 * model.scale(["x"] * 3, {"x": 1.0}))
    note.label(*axes)
    note.nontrivial(True)
