"""B07: emittance and amplitude do not depend on the frame; amplitudes add up to the emittance."""
import math

import numpy
from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref
from checks.b06_optics import Flag, names

FACETS = Registry()
AXES = st.sampled_from([["x"], ["y"], ["x", "y"], ["y", "x"], ["t"], ["x", "t"], ["x", "y", "t"], ["x", "y", "ct"]])


def conditioned(cov):
    d = numpy.sqrt(numpy.diag(cov))
    if not (d > 0).all():
        return 0.0
    return numpy.linalg.det(cov / numpy.outer(d, d))


def symplectic(n, rng):
    """product of random linear elements on (q1,p1,q2,p2...): drifts, lenses, rotations, couplings"""
    m = numpy.eye(2 * n)
    for _ in range(6):
        e = numpy.eye(2 * n)
        i = rng.randrange(n)
        kind = rng.randrange(4)
        if kind == 0:
            e[2 * i, 2 * i + 1] = rng.uniform(-2, 2)
        elif kind == 1:
            e[2 * i + 1, 2 * i] = rng.uniform(-0.5, 0.5)
        elif kind == 2:
            s = rng.uniform(0.5, 2)
            e[2 * i, 2 * i], e[2 * i + 1, 2 * i + 1] = s, 1 / s
        elif n > 1:
            j = (i + 1) % n
            a = rng.uniform(-3, 3)
            for k in (0, 1):
                e[2 * i + k, 2 * i + k] = e[2 * j + k, 2 * j + k] = math.cos(a)
                e[2 * i + k, 2 * j + k], e[2 * j + k, 2 * i + k] = math.sin(a), -math.sin(a)
        m = e @ m
    return m


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, AXES, st.booleans(), st.booleans()), quick=400, thorough=15000,
            rule="amplitude of every hit is emittance times its Mahalanobis distance from the weighted mean, by "
                 "get_amplitude, get_hit_variable and list_get_hit_variable, with given or calculated matrix "
                 "and means; the weighted mean amplitude is 2n times the emittance; no amplitude is negative; "
                 "non-trivial: matrix well conditioned")
def amplitudes(case, note):
    from xboa.bunch import Bunch
    spec, axes, geometric, use_global = case
    if geometric:
        axes = [a for a in axes if a in "xy"] or ["x"]
    hits = gen.beam(spec, 14)
    bunch = gen.beam_bunch(hits)
    model = ref.Bunch(hits, gen.weights_of(hits))
    cov_names = names(axes, geometric)
    cov = numpy.array(model.cov(cov_names))
    det = conditioned(cov)
    if det < 1e-4:
        return
    rel = max(1e-7, 1e-10 / det)
    mean = [model.mean(v) for v in cov_names]
    inv = numpy.linalg.inv(cov)
    emit = numpy.linalg.det(cov) ** (0.5 / len(axes)) / (1.0 if geometric else hits[0]["mass"])
    total = 0.0
    with Flag(geometric, use_global) as kw:
        variable = "amplitude " + " ".join(axes)
        listed = bunch.list_get_hit_variable([variable])[0] if use_global else None
        mean_dict = dict(zip(cov_names, mean))
        for i in range(len(hits)):
            u = numpy.array([ref.derived(hits[i], v) - mu for v, mu in zip(cov_names, mean)])
            want = float(u @ inv @ u) * emit
            got = Bunch.get_amplitude(bunch, bunch[i], axes, **kw)
            require_close(got, want, "amplitude of hit %d" % i, rel, 1e-9 * emit)
            total += model.w[i] * got
            got = Bunch.get_amplitude(bunch, bunch[i], axes, numpy.matrix(cov), dict(mean_dict), **kw)
            require_close(got, want, "amplitude from given matrix", rel, 1e-9 * emit)
            got = Bunch.get_amplitude(bunch, bunch[i], axes, numpy.matrix(cov) * 4, dict(mean_dict), **kw)
            require_close(got, want, "amplitude from 4 times the matrix", rel, 1e-9 * emit)  # 4 * 1/4
            off = {v: mu + 0.5 * cov[k][k] ** 0.5 for k, (v, mu) in enumerate(zip(cov_names, mean))}
            shifted = numpy.array([ref.derived(hits[i], v) - off[v] for v in cov_names])
            require_close(Bunch.get_amplitude(bunch, bunch[i], axes, None, dict(off), **kw),
                          float(shifted @ inv @ shifted) * emit, "amplitude about given means", rel, 1e-9 * emit)
            if use_global:
                require_close(listed[i], want, "listed", rel, 1e-9 * emit)
                require_close(bunch.get_hit_variable(bunch[i], variable), want, "variable", rel, 1e-9 * emit)
            require(got >= 0, "negative amplitude", got)
        require_close(total / model.weight(), 2 * len(axes) * emit, "mean amplitude", rel)
    note.label(" ".join(axes), "geometric" if geometric else "kinetic")
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from([["x"], ["y"], ["x", "y"], ["y", "x"],
                                                                     ["x", "t"], ["x", "y", "t"]]),
                                       st.integers(0, 10**6), gen.smooth(-50, 50, 20)),
            quick=300, thorough=12000,
            rule="a random symplectic map about any origin with any translation leaves the emittance of its "
                 "axes and every amplitude unchanged; doubling positions doubles the emittance to the power "
                 "1; order and amplitude rank unchanged; non-trivial: matrix well conditioned")
def symplectic_maps(case, note):
    import random
    from xboa.bunch import Bunch
    spec, axes, seed, off = case
    hits = gen.beam(spec, 14)
    bunch = gen.beam_bunch(hits)
    cov_names = names(axes, False)
    cov = numpy.array(ref.Bunch(hits, gen.weights_of(hits)).cov(cov_names))
    det = conditioned(cov)
    rng = random.Random(seed)
    m = symplectic(len(axes), rng)
    det = min(det, conditioned(m @ cov @ m.T))
    if det < 1e-4:
        return
    rel = max(1e-6, 1e-9 / det)
    before = bunch.get_emittance(axes)
    amps = [Bunch.get_amplitude(bunch, h, axes) for h in bunch]
    others = [[h[v] for v in ("bz", "station", "pid", "z", "charge")] for h in bunch]
    bunch.abelian_transformation(cov_names, numpy.matrix(m), {cov_names[0]: off, cov_names[1]: off / 10},
                                 {cov_names[0]: off / 2, cov_names[-1]: 3.0})
    require_close(bunch.get_emittance(axes), before, "emittance", rel)
    for i, h in enumerate(bunch):
        require_close(Bunch.get_amplitude(bunch, h, axes), amps[i], "amplitude of %d" % i, rel, 1e-6 * before)
        require([h[v] for v in ("bz", "station", "pid", "z", "charge")] == others[i], "other variables")
    n = len(axes)
    scale = numpy.diag([2.0 if i % 2 == 0 else 1.0 for i in range(2 * n)])
    bunch.abelian_transformation(cov_names, numpy.matrix(scale), {}, {v: off for v in cov_names})
    require_close(bunch.get_emittance(axes), 2 * before, "emittance with positions doubled", rel)
    note.label(" ".join(axes))
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from([["x", "px"], ["y", "py"], ["x", "px", "y", "py"],
                                                                     ["y", "x"], ["x", "px", "t", "energy"], ["x"],
                                                                     ["x", "px", "y"]]),
                                       st.integers(0, 10**6), st.booleans(), st.booleans()),
            quick=300, thorough=12000,
            rule="transform_to a random positive target about any origin: the covariance becomes the target "
                 "times the factor that keeps the determinant, other variables are unchanged, the translation "
                 "is applied, mass shell is kept if asked; non-trivial: matrix well conditioned")
def transform_to(case, note):
    spec, variables, seed, origin, shell = case
    hits = gen.beam(spec, 14)
    bunch = gen.beam_bunch(hits)
    model = ref.Bunch(hits, gen.weights_of(hits))
    n = len(variables)
    rng = numpy.random.RandomState(seed)
    a = rng.uniform(-1, 1, (n, n)) + 1.5 * numpy.eye(n)
    target = a @ a.T
    org = {v: rng.uniform(-5, 5) for v in variables} if origin else {}
    cov = numpy.array(model.cov(variables, org))
    det = min(conditioned(cov), conditioned(target))
    if det < 1e-3:
        return
    rel = max(1e-6, 1e-9 / det)
    # a translation needs an origin about which to compare
    shift = {variables[0]: 2.5} if not origin else {}
    if seed % 3 == 0:  # nor need a translated variable be one that is transformed
        shift = dict(shift, **{v: 0.5 + i for i, v in enumerate(["bz", "t", "px", "y"]) if v not in variables})
    asked = dict(shift)
    keep = target.copy()
    others = [v for v in ("x", "y", "px", "py", "t", "bz", "pz", "station") if v not in variables]
    before = [[h[v] + shift.get(v, 0) for v in others] for h in bunch]
    mass_shell = "energy" if shell and "energy" not in variables else ""
    still = bunch.deepcopy()
    still.transform_to(list(variables), numpy.matrix(target), {}, org, "")
    bunch.transform_to(list(variables), numpy.matrix(target), shift, org, mass_shell)
    for a, b in zip(bunch, still):  # the translation comes after the transformation
        for v in variables:
            require_close(a[v], b[v] + shift.get(v, 0.0), "translation of " + v, 1e-9, 1e-9)
    require((target == keep).all(), "the target was changed")
    require(shift == asked, "the translation was changed")
    after = numpy.array(bunch.covariance_matrix(variables, org))
    factor = (numpy.linalg.det(cov) / numpy.linalg.det(target)) ** (1.0 / n)
    for i in range(n):
        for j in range(n):
            require_close(after[i, j], factor * target[i, j], "covariance %s %s" % (variables[i], variables[j]),
                          rel, rel * factor * math.sqrt(target[i, i] * target[j, j]))
    for h, old in zip(bunch, before):
        for v, value in zip(others, old):
            if v in shift:
                require_close(h[v], value, "translation of " + v, 1e-9, 1e-9)
            else:
                require(h[v] == value, "another variable changed", v, h[v], value)
        if mass_shell:
            require_close(h["energy"] ** 2, h["mass"] ** 2 + h["px"] ** 2 + h["py"] ** 2 + h["pz"] ** 2,
                          "mass shell", 1e-9)
    note.label(" ".join(variables))
    note.nontrivial()
