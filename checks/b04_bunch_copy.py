"""B04: copies of a bunch are independent and equal; equality sees every difference."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require
from checks import gen

FACETS = Registry()
DBL = [v for v in gen.DOUBLES]
EDIT = st.one_of(
    st.tuples(st.just("var"), st.integers(0, 40), st.sampled_from(DBL), st.sampled_from([1.0, -3.5, 1e-3])),
    st.tuples(st.just("int"), st.integers(0, 40), st.sampled_from(gen.INTS), st.sampled_from([1, 7])),
    st.tuples(st.just("append"), st.integers(0, 40)), st.tuples(st.just("del"), st.integers(0, 40)),
    st.tuples(st.just("swap"), st.integers(0, 40), st.integers(1, 10)),
    st.tuples(st.just("cov"), st.integers(0, 9), st.integers(0, 9), st.sampled_from([1e-3, 5.0])),
    st.tuples(st.just("mean"), st.sampled_from(["x", "px", "ct"]), st.sampled_from([1e-3, 5.0])),
    st.tuples(st.sampled_from(["uncov", "unmean"]), st.just(0)), st.tuples(st.just("translate"), st.just(2.0)))
COVS = st.sampled_from(["none", "own", "given"])


def make(spec, covs):
    import numpy
    bunch = gen.beam_bunch(gen.beam(spec))
    if covs == "own":
        bunch.set_covariance_matrix(True)
    elif covs == "given":
        m = numpy.array([[1.0 / (1 + i + j) + (i == j) for j in range(10)] for i in range(10)])
        names = ["x", "px", "y", "py", "z", "pz", "t", "energy", "ct"]
        bunch.set_covariance_matrix(True, numpy.matrix(m), {n: 0.1 * i for i, n in enumerate(names)})
    return bunch


def held(bunch):
    """the internal matrix, or None, and means of the bunch, whatever they are called"""
    import numpy
    found = list(vars(bunch).values())
    covs = [v for v in found if isinstance(v, numpy.ndarray)]
    means = [v for v in found if isinstance(v, dict) and all(isinstance(m, float) for m in v.values())]
    return covs[0] if covs else None, means[0] if means else {}


def state(bunch):
    covs, means = held(bunch)
    return [[hit[v] for v in DBL + gen.INTS] for hit in bunch], bunch.covariances_set(), \
        bunch.means_set(), dict(means), None if not bunch.covariances_set() or covs is None else covs.tolist()


def edit(bunch, e):
    """Apply e; True if it changed something that equality is about."""
    n = len(bunch)
    if e[0] in ("var", "int"):
        hit = bunch[e[1] % n]
        hit[e[2]] = hit[e[2]] + e[3]
        return True
    if e[0] == "append":
        bunch.append(bunch[e[1] % n].deepcopy())
        return True
    if e[0] == "del":
        del bunch[e[1] % n]
        return True
    if e[0] == "swap":
        i, j = e[1] % n, (e[1] + e[2]) % n
        a, b = bunch[i].deepcopy(), bunch[j].deepcopy()
        bunch[i], bunch[j] = b, a
        return i != j
    if e[0] == "cov":
        if not bunch.covariances_set() or held(bunch)[0] is None:
            return False
        held(bunch)[0][e[1], e[2]] += e[3]
        return True
    if e[0] == "mean":
        if not bunch.means_set() or e[1] not in held(bunch)[1]:
            return False
        held(bunch)[1][e[1]] += e[2]
        return True
    if e[0] == "unmean":    # as a bunch with other means, and none at all
        covs, means = held(bunch)
        if not bunch.means_set() or covs is None or "x" not in means:
            return False
        bunch.set_covariance_matrix(True, covs, {"x": means["x"]})
        return True
    if e[0] == "uncov":
        was = bunch.covariances_set()
        bunch.set_covariance_matrix(False)
        return was
    bunch.translate({"y": e[1]})
    return True


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, COVS, st.sampled_from(["deepcopy", "copy.deepcopy", "repr",
                                                                             "new_from_hits"]), EDIT,
                                       st.booleans()),
            quick=500, thorough=20000,
            rule="deepcopy (both ways), eval(repr) and new_from_hits give an equal bunch with the same hits "
                 "and internal covariances; any one edit of either then leaves the other as it was and "
                 "makes them unequal, in both orders; non-trivial: the edit changed something")
def copies(case, note):
    import copy
    import numpy
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    spec, covs, how, change, first = case
    if how == "new_from_hits":
        covs = "none"
    bunch = make(spec, covs)
    before = state(bunch)
    if how == "deepcopy":
        other = bunch.deepcopy()
    elif how == "copy.deepcopy":
        other = copy.deepcopy(bunch)
    elif how == "new_from_hits":
        other = Bunch.new_from_hits(bunch.hits())
    else:
        other = eval(repr(bunch), {"Bunch": Bunch, "Hit": Hit, "numpy": numpy, "nan": math.nan,
                                   "inf": math.inf})
    require(state(bunch) == before, how, "changed the bunch")
    require(state(other) == before, how, "is not the same", "")
    require(other is not bunch and all(a is not b for a, b in zip(bunch, other)), "shared hits")
    require(bunch == other and other == bunch and not bunch != other and not other != bunch,
            how, "is not equal")
    # internal covariance: same answers
    if covs != "none":
        require(bunch.covariance_matrix(["x", "py"]).tolist() ==
                other.covariance_matrix(["x", "py"]).tolist(), "covariances differ")
    mine, theirs = (bunch, other) if first else (other, bunch)
    changed = edit(mine, change)
    require(state(theirs) == before, "edit", change, "of one shows in the other")
    require((mine == theirs) == (not changed) and (theirs == mine) == (not changed), "edit", change,
            "changed" if changed else "did not change", "but == is", mine == theirs, theirs == mine)
    require((mine != theirs) == changed and (theirs != mine) == changed, "!= after", change)
    require(not bunch == 5 and bunch != None and bunch != list(bunch), "equal to another type")  # noqa
    if change[0] in ("var", "int", "translate"):
        require(not mine.hit_equality(theirs) and not theirs.hit_equality(mine),
                "hit_equality after", change)
    elif change[0] in ("cov", "mean", "uncov", "unmean"):
        require(mine.hit_equality(theirs) and theirs.hit_equality(mine), "hit_equality after", change)
    # bunches of the same hits, with and without internal covariances and means
    hits, m = theirs.hits(), numpy.matrix(numpy.eye(10))
    kinds = [Bunch.new_from_hits(hits), Bunch.new_from_hits(hits, None, {"x": 0.0}), Bunch.new_from_hits(hits, None, {"x": 0.0, "y": 1.0}),
             Bunch.new_from_hits(hits, None, {"y": 0.0}), Bunch.new_from_hits(hits, None, {"x": 0.0, "px": 1.0}),
             Bunch.new_from_hits(hits, m, {}), Bunch.new_from_hits(hits, m * 2., {}), Bunch.new_from_hits(hits, m, {"y": 1.0})]
    for i, a in enumerate(kinds):
        for j, b in enumerate(kinds):
            require((a == b) == (i == j) and (a != b) == (i != j), "internal covariances and means", i, "and", j, a == b)
    note.label(how, covs, change[0])
    note.nontrivial(changed)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, EDIT), quick=100, thorough=3000,
            rule="copy() and copy.copy share the data: an edit of one is seen in the other; "
                 "non-trivial: the edit changed something")
def shallow(case, note):
    import copy
    spec, change = case
    bunch = make(spec, "own")
    before = state(bunch)
    others = [bunch.copy(), copy.copy(bunch)]
    for other in others:
        require(state(other) == before and other == bunch, "copy differs")
    changed = edit(bunch, change)
    for other in others:
        require(len(other) == len(bunch) and all(a is b for a, b in zip(bunch, other)), "hits not shared")
        require(other == bunch, "copy no longer equal")
    require(str(bunch) == "<Bunch of %d Hits>" % len(bunch), str(bunch))
    note.nontrivial(changed)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.integers(0, 40), st.sampled_from(DBL),
                                       st.sampled_from(["nan", "inf", "-inf", "tiny", "none"])),
            quick=100, thorough=3000,
            rule="bunches that hold nan, inf or sub-tolerance values copy to bunches with the same values; "
                 "equality, of bunches and of their hits, ignores differences below the tolerance, the usual or a given one; non-trivial: all")
def odd_values(case, note):
    import copy
    spec, i, var, what = case
    bunch = gen.beam_bunch(gen.beam(spec))
    other = bunch.deepcopy()
    hit = bunch[i % len(bunch)]
    if what == "tiny":
        hit[var] = hit[var] + 1e-10
        require(bunch == other and other == bunch, "unequal for a difference of 1e-10 in", var)
        hit[var] = hit[var] + 0.5
        for tolerance in (1e-12, 0.25, 0.75, 3.0):
            for a, b in ((bunch, other), (other, bunch)):
                got = [a.hit_equality(b, tolerance), a.__eq__(b, tolerance), not a.__ne__(b, tolerance)]
                require(got == [tolerance > 0.5] * 3, "with tolerance", tolerance, "and a difference of 0.5 in", var, got)
    elif what != "none":
        hit[var] = float(what)
    for new in (bunch.deepcopy(), copy.deepcopy(bunch)):
        for a, b in zip(bunch, new):
            for v in DBL:
                require(gen.same(a[v], b[v]), v, a[v], b[v])
    note.label(what)
    note.nontrivial()
