"""B02: means, moments, covariances are the weighted sums they are defined to be."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
CORE = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bz"]
PY = ["ct", "r", "pt", "p", "x'", "y'", "t'", "kinetic_energy", "r_squared", "event_number"]
VAR = st.one_of(st.sampled_from(CORE), st.sampled_from(CORE + PY))
COREVAR = st.sampled_from(CORE)
OFF = gen.smooth(-40, 40, 40)


def setup(spec):
    hits = gen.beam(spec)
    return gen.beam_bunch(hits), ref.Bunch(hits, gen.weights_of(hits))


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.lists(st.one_of(COREVAR, VAR), min_size=1, max_size=4),
                                       st.lists(st.one_of(st.none(), OFF), min_size=4, max_size=4),
                                       st.booleans()),
            quick=500, thorough=20000,
            rule="moment of 1 to 4 variables (repeats allowed, core and derived) about any, some or no "
                 "given means, weighted, against exact summation; non-trivial: two or more distinct "
                 "variables or weights that differ")
def moments(case, note):
    spec, variables, offs, extra = case
    bunch, model = setup(spec)
    means = {v: o for v, o in zip(variables, offs) if o is not None}
    if extra:
        means["z"] = 3.0  # a mean for a variable that may not be in the list
    given = dict(means)
    got = bunch.moment(list(variables), means)
    require(means == given, "the dict of means was changed")
    require_close(got, model.moment(variables, means), "moment %r about %r" % (variables, given),
                  1e-9, 1e-11 * model.scale(variables, means))
    means = {v: model.mean(v) for v in set(variables)}
    got = bunch.mean(list(variables))
    require(set(got) == set(variables), "mean returns", sorted(got))
    for v in variables:
        require_close(got[v], means[v], "mean of " + v, 1e-9, 1e-11 * model.scale([v], {v: 0.0}))
    note.label("n_var %d" % len(variables), "given" if given else "about mean", spec["weights"])
    if any(v in PY for v in variables):
        note.label("derived")
    note.nontrivial(len(set(variables)) > 1 or len(set(model.w)) > 1)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.lists(VAR, min_size=1, max_size=6, unique=True),
                                       st.dictionaries(VAR, OFF, max_size=3), OFF),
            quick=400, thorough=15000,
            rule="covariance_matrix for any order of variables and any origin: each element against "
                 "exact summation, symmetric, positive; standard_deviation in its three argument forms; "
                 "non-trivial: 2 or more variables")
def covariances(case, note):
    spec, variables, origin, about = case
    bunch, model = setup(spec)
    given = dict(origin)
    cov = bunch.covariance_matrix(list(variables), origin)
    require(origin == given, "the origin dict was changed")
    n = len(variables)
    require(cov.shape == (n, n), "shape", cov.shape)
    for i in range(n):
        for j in range(n):
            pair = [variables[i], variables[j]]
            require_close(cov[i, j], model.moment(pair, given), "covariance %r" % pair, 1e-9,
                          1e-11 * model.scale(pair, given))
            require(cov[i, j] == cov[j, i], "not symmetric", pair)
    v = variables[0]
    scale = model.scale([v, v])
    for arg, kw, want in ((v, {}, model.moment([v, v])), ([v], {}, model.moment([v, v])),
                          (v, {"variable_mean": about}, model.moment([v, v], {v: about})),
                          ([v], {"variable_mean": {v: about}}, model.moment([v, v], {v: about})),
                          (v, {"variable_mean": {"not " + v: about}}, model.moment([v, v]))):
        var = max(want, 0.0)
        got = bunch.standard_deviation(arg, **kw)
        # a variance of 0 may come out as a rounding error of either sign: compare squares
        got2 = (got * got).real if isinstance(got, complex) else got * got
        require_close(got2, var, "standard_deviation(%r, %r) squared" % (arg, kw), 1e-9,
                      1e-10 * model.scale([v, v], {v: about}) + 1e-10 * scale)
    note.label("n_var %d" % n, "origin" if any(k in variables for k in given) else "about mean")
    note.nontrivial(n > 1)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.integers(0, 10**6), st.lists(VAR, min_size=1, max_size=3),
                                       gen.smooth(0.1, 7, 50), OFF, st.integers(1, 10)),
            quick=300, thorough=12000,
            rule="metamorphic: shuffling hits, scaling all weights, adding hits of weight 0 and writing one "
                 "hit of weight 2 as two of weight 1 change no moment; moving a variable moves its mean "
                 "only; bunches combine as weighted sums; non-trivial: all")
def relations(case, note):
    import random
    from xboa.bunch import Bunch
    spec, seed, variables, factor, shift, cut = case
    hits = gen.beam(spec)
    bunch = gen.beam_bunch(hits)
    model = ref.Bunch(hits, gen.weights_of(hits))
    rng = random.Random(seed)
    tol = 1e-10 * model.scale(variables)
    want = bunch.moment(variables)
    zero = {v: 0.0 for v in variables}

    order = list(bunch)
    rng.shuffle(order)
    require_close(Bunch.new_from_hits(order).moment(variables), want, "shuffled", 1e-9, tol)
    split = [d for d in hits]
    i = rng.randrange(len(split))
    half = dict(split[i], local_weight=split[i].get("local_weight", 1.0) / 2, event_number=999)
    half.setdefault("global_weight", 1.0)
    first = dict(split[i], local_weight=half["local_weight"])
    if "event_number" not in variables:
        twice = gen.beam_bunch(split[:i] + [first] + split[i + 1:] + [half])
        require_close(twice.moment(variables), want, "one hit as two halves", 1e-9, tol)
    dead = dict(hits[0], local_weight=0.0, event_number=1234, x=1e4, px=55.0)
    bunch = gen.beam_bunch(hits + [dead])
    require_close(bunch.moment(variables), want, "with a hit of weight 0", 1e-9, tol)
    require_close(bunch.bunch_weight(), model.weight(), "bunch_weight", 1e-12)
    scaled = gen.beam_bunch([dict(d, local_weight=d.get("local_weight", 1.0) * factor) for d in hits])
    require_close(scaled.moment(variables), want, "weights times %g" % factor, 1e-9, tol)
    # combination of two parts
    k = min(cut, len(hits) - 1)
    w1, w2 = ref.Bunch(hits[:k], model.w[:k]).weight(), ref.Bunch(hits[k:], model.w[k:]).weight()
    if w1 > 0 and w2 > 0:
        b1, b2 = gen.beam_bunch(hits[:k]), None
        m1 = b1.moment(variables, zero)
        b2 = gen.beam_bunch(hits[k:])
        m2 = b2.moment(variables, zero)
        whole = gen.beam_bunch(hits).moment(variables, zero)
        require_close(whole, (w1 * m1 + w2 * m2) / (w1 + w2), "sum over parts", 1e-9,
                      1e-10 * model.scale(variables, zero))
    # a shift moves the mean and leaves central moments
    bunch = gen.beam_bunch(hits)
    before = bunch.mean(["x", "y"])
    var, covxy = bunch.moment(["x", "x", "x"]), bunch.moment(["x", "y"])
    bunch.translate({"x": shift})
    after = bunch.mean(["x", "y"])
    require_close(after["x"], before["x"] + shift, "mean after translate", 1e-9, 1e-9)
    require_close(after["y"], before["y"], "mean of another variable", 1e-12)
    size = max(abs(d["x"]) + abs(shift) for d in hits)
    require_close(bunch.moment(["x", "x", "x"]), var, "third moment after translate", 1e-9, 1e-8 * size ** 3)
    require_close(bunch.moment(["x", "y"]), covxy, "covariance after translate", 1e-9,
                  1e-9 * size * max(abs(d["y"]) + 1 for d in hits))
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.integers(0, 3), VAR),
            quick=80, thorough=1500,
            rule="a bunch without weight (empty, all hits cut) has no moments: ZeroDivisionError, not a "
                 "number; non-trivial: hits present but weightless")
def weightless(case, note):
    from xboa.bunch import Bunch
    spec, how, var = case
    hits = gen.beam(spec)
    bunch = gen.beam_bunch(hits) if how else Bunch()
    if how == 1:
        for hit in bunch:
            hit["local_weight"] = 0.0
    elif how == 2:
        for hit in bunch:
            hit["global_weight"] = 0.0
    elif how == 3:
        bunch.conditional_remove({"pz": -1e9}, lambda a, b: a > b)
        require(len(bunch) == 0, "hits left:", len(bunch))
    for call in (lambda: bunch.moment([var]), lambda: bunch.mean([var]),
                 lambda: bunch.moment([var, "x"]), lambda: bunch.standard_deviation(var)):
        try:
            got = call()
        except ZeroDivisionError:
            continue
        require(False, "a weightless bunch returned", got)
    require(bunch.bunch_weight() == 0, "weight", bunch.bunch_weight())
    note.nontrivial(how in (1, 2))
