"""B06: emittance, Twiss parameters, dispersion and angular momentum are as defined."""
import math

import numpy
from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
AXES = st.sampled_from([["x"], ["y"], ["t"], ["ct"], ["x", "y"], ["y", "x"], ["x", "t"], ["ct", "y"],
                        ["x", "y", "t"], ["t", "x", "y"], ["x", "y", "ct"], ["z"], ["z", "x"]])
GAXES = st.sampled_from([["x"], ["y"], ["t"], ["x", "y"], ["y", "x"], ["x", "y", "t"], ["ct", "x"]])
CASE = st.one_of(st.tuples(gen.beam_spec, AXES, st.just(False), st.booleans()),
                 st.tuples(gen.beam_spec, GAXES, st.just(True), st.booleans()))


def mom(axis, geometric):
    if geometric:
        return axis + "'"
    return "energy" if axis in ("t", "ct") else "p" + axis


def names(axes, geometric):
    return sum(([a, mom(a, geometric)] for a in axes), [])


def setup(spec, axes, geometric, min_n=12):
    """bunch, model, covariance and how well conditioned its determinant is"""
    hits = gen.beam(spec, min_n)
    bunch = gen.beam_bunch(hits)
    model = ref.Bunch(hits, gen.weights_of(hits))
    cov = numpy.array(model.cov(names(axes, geometric)))
    d = numpy.sqrt(numpy.diag(cov))
    corr = cov / numpy.outer(d, d) if (d > 0).all() else numpy.zeros(cov.shape)
    det = numpy.linalg.det(corr)
    return bunch, model, cov, det


class Flag:
    def __init__(self, geometric, use_global):
        self.kw = {} if use_global else {"geometric": geometric}
        self.value = geometric if use_global else not geometric

    def __enter__(self):
        from xboa.bunch import Bunch
        Bunch.set_geometric_momentum(self.value)
        require(Bunch.get_geometric_momentum() == self.value, "get_geometric_momentum")
        return self.kw

    def __exit__(self, *args):
        from xboa.bunch import Bunch
        Bunch.set_geometric_momentum(False)


@FACETS.add(strategy=lambda: CASE, quick=500, thorough=20000,
            rule="emittance, beta, gamma, alpha for 13 axis lists, kinetic and geometric, chosen by the "
                 "argument or by the global setting, from weighted beams, against numpy on exactly summed "
                 "covariances; single-axis identity beta gamma = 1 + alpha^2; order of axes is "
                 "irrelevant; non-trivial: determinant not rounding error")
def twiss(case, note):
    spec, axes, geometric, use_global = case
    bunch, model, cov, det = setup(spec, axes, geometric)
    if det < 1e-5:
        return
    rel = max(1e-8, 1e-11 / det)
    n = len(axes)
    mass = model.hits[0]["mass"]
    emit = numpy.linalg.det(cov) ** (0.5 / n) / (1.0 if geometric else mass)
    p = 1.0 if geometric else model.mean("p")
    m = 1.0 if geometric else mass
    with Flag(geometric, use_global) as kw:
        require_close(bunch.get_emittance(axes, **kw), emit, "emittance", rel)
        beta = bunch.get_beta(axes, **kw)
        gamma = bunch.get_gamma(axes, **kw)
        alpha = bunch.get_alpha(axes, **kw)
        require_close(beta, sum(cov[2 * i, 2 * i] for i in range(n)) * p / (emit * m * n), "beta", rel)
        require_close(gamma, sum(cov[2 * i + 1, 2 * i + 1] for i in range(n)) / (emit * m * p * n), "gamma", rel)
        require_close(alpha, -sum(cov[2 * i, 2 * i + 1] for i in range(n)) / (emit * m * n), "alpha", rel,
                      1e-9 * max(1.0, (beta * gamma) ** 0.5))
        if n == 1:
            require_close(beta * gamma, 1 + alpha * alpha, "beta gamma - alpha^2", max(1e-7, 10 * rel))
        require_close(bunch.get_emittance(axes[::-1], **kw), emit, "emittance with axes reversed", rel)
        require_close(bunch.get_emittance(axes, numpy.matrix(cov), **kw), emit, "emittance of a matrix", rel)
        scaled = numpy.matrix(cov) * 4.0
        keep = scaled.copy()
        require_close(bunch.get_emittance(axes, scaled, **kw), 4 * emit, "emittance of 4 times the matrix", rel)
        require((scaled == keep).all(), "matrix changed")
        if use_global:
            for name, want in (("emittance", emit), ("beta", beta), ("gamma", gamma), ("alpha", alpha)):
                require_close(bunch.get(name, axes), want, "get " + name, rel)
        from xboa.bunch import Bunch
        if use_global:
            require(Bunch.axis_list_to_covariance_list(axes) == names(axes, geometric), "covariance list")
        else:
            require(Bunch.axis_list_to_covariance_list(axes, geometric) == names(axes, geometric),
                    "covariance list")
        require([Bunch.momentum_variable(a, geometric) for a in axes] == [mom(a, geometric) for a in axes],
                "momentum_variable")
    note.label(" ".join(axes), "geometric" if geometric else "kinetic", "global" if use_global else "argument")
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from(["x", "y", "t", "ct", "z"]), st.booleans(),
                                       st.booleans(), st.lists(gen.smooth(-30, 30, 20), min_size=4, max_size=4),
                                       gen.smooth(-4e-3, 4e-3, 16), st.booleans()),
            quick=400, thorough=15000,
            rule="dispersion, dispersion prime, kinetic and canonical angular momentum about any axis with any "
                 "field, and get() of each, against exactly summed moments; non-trivial: energy spread")
def other(case, note):
    spec, axis, geometric, use_global, offs, bz, default_bz = case
    hits = gen.beam(spec, 5)
    bunch = gen.beam_bunch(hits)
    model = ref.Bunch(hits, gen.weights_of(hits))
    if geometric and axis == "z":
        axis = "x"
    var_e = model.moment(["energy"] * 2)
    if var_e < 1e-3:
        return

    def check(got, want, what, scale):
        require_close(got, want, what, 1e-8, 1e-9 * scale)
    e = model.mean("energy")
    with Flag(geometric, use_global) as kw:
        check(bunch.get_dispersion(axis), model.moment([axis, "energy"]) * e / var_e, "dispersion",
              model.scale([axis, "energy"]) * e / var_e)
        check(bunch.get("dispersion", [axis, "y"]), model.moment([axis, "energy"]) * e / var_e,
              "get dispersion", model.scale([axis, "energy"]) * e / var_e)
        pv = mom(axis, geometric)
        check(bunch.get_dispersion_prime(axis, **kw), model.moment([pv, "energy"]) * e / var_e,
              "dispersion prime", model.scale([pv, "energy"]) * e / var_e)
        if use_global:
            check(bunch.get("dispersion_prime", [axis]), model.moment([pv, "energy"]) * e / var_e,
                  "get dispersion prime", model.scale([pv, "energy"]) * e / var_e)
    zero = {"x": 0.0, "y": 0.0, "px": 0.0, "py": 0.0}
    rot = dict(zip(["x", "y", "px", "py"], offs))
    for axes, args in ((zero, ()), (rot, (rot,))):
        lz = model.moment(["x", "py"], axes) - model.moment(["y", "px"], axes)
        size = model.scale(["x", "py"], axes) + model.scale(["y", "px"], axes)
        check(bunch.get_kinetic_angular_momentum(*args), lz, "kinetic angular momentum", size)
    check(bunch.get("angular_momentum", ["x"]), model.moment(["x", "py"], zero) - model.moment(["y", "px"], zero),
          "get angular momentum", model.scale(["x", "py"], zero) + model.scale(["y", "px"], zero))
    b = hits[0]["bz"] if default_bz else bz
    centre = {"x": offs[1], "y": offs[0]}
    for args, ax, ce in (((), zero, zero), ((centre,), zero, centre), ((centre, rot), rot, centre)):
        lz = model.moment(["x", "py"], ax) - model.moment(["y", "px"], ax)
        r2 = model.moment(["x", "x"], ce) + model.moment(["y", "y"], ce)
        size = model.scale(["x", "py"], ax) + model.scale(["y", "px"], ax) + abs(ref.C * b * r2)
        check(bunch.get_canonical_angular_momentum(None if default_bz else bz, *args), lz + ref.C * b * r2 / 2,
              "canonical angular momentum", size)
    check(bunch.get("mean", ["px", "x"]), model.mean("px"), "get mean", 10)
    check(bunch.get("bunch_weight", []), model.weight(), "get bunch_weight", 1)
    check(bunch.get("moment", ["x", "py"]), model.moment(["x", "py"]), "get moment", model.scale(["x", "py"]))
    check(bunch.get("standard_deviation", ["x", "y"]) ** 2, model.moment(["x", "x"]), "get standard_deviation",
          model.scale(["x", "x"]))
    note.label(axis)
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.lists(gen.smooth(-3, 3, 30), min_size=3, max_size=3)),
            quick=150, thorough=5000,
            rule="angular momentum with the geometric setting equals the kinetic one when all hits have one "
                 "pz, about any axis; non-trivial: all")
def geometric_angular_momentum(case, note):
    from xboa.bunch import Bunch
    spec, offs = case
    hits = gen.beam(spec, 4)
    for d in hits:
        d["pz"] = spec["pz"]
        d["energy"] = math.sqrt(d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
    bunch = gen.beam_bunch(hits)
    pz = spec["pz"]
    kin = {"x": offs[0], "y": offs[1], "px": offs[2], "py": 0.0}
    geo = {"x": offs[0], "y": offs[1], "x'": offs[2] / pz, "y'": 0.0}
    model = ref.Bunch(hits, gen.weights_of(hits))
    size = model.scale(["x", "py"], kin) + model.scale(["y", "px"], kin)
    want = bunch.get_kinetic_angular_momentum(kin)
    Bunch.set_geometric_momentum(True)
    try:
        require_close(bunch.get_kinetic_angular_momentum(geo), want, "about an axis", 1e-9, 1e-10 * size)
        got = bunch.get_kinetic_angular_momentum()
    finally:
        Bunch.set_geometric_momentum(False)
    require_close(got, bunch.get_kinetic_angular_momentum(), "about 0", 1e-9, 1e-9 * size)
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(
    gen.beam_spec,
    st.sampled_from(["", "q", "X", "px", "energy", "x'", "momentum", "emittances", "amplitude", "x y"]),
    st.sampled_from(["get", "emittance", "momentum_variable", "axis string", "dispersion_prime"])),
    quick=60, thorough=500,
    rule="a name that is not an axis or a bunch variable is refused with KeyError or IndexError; "
         "non-trivial: all")
def refused(case, note):
    from xboa.bunch import Bunch
    spec, name, how = case
    bunch = gen.beam_bunch(gen.beam(spec, 4))
    if how == "axis string" and name in ("x y", ""):
        name = "x q"
    try:
        if how == "get":
            got = bunch.get(name, ["x"])
        elif how == "emittance":
            got = bunch.get_emittance([name])
        elif how == "momentum_variable":
            got = Bunch.momentum_variable(name, False)
        elif how == "dispersion_prime":
            got = bunch.get_dispersion_prime(name)
        else:
            got = Bunch.convert_string_to_axis_list(name)
    except (KeyError, IndexError):
        note.nontrivial()
        return
    require(False, how, name, "returned", got)
