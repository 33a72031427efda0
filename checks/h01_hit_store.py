"""H01: a Hit is a faithful store of its variables (model-based histories)."""
from hypothesis import strategies as st

from vlib.core import Registry, Violation, require
from checks import gen

FACETS = Registry()
ASSUMPTIONS = ["variable names and defaults are those documented in the Hit class"]

NAMES = gen.DOUBLES + gen.INTS + sorted(gen.ALIASES)
BAD_VALUES = ["text", None, [], 2**31, -2**31 - 1, 2**70, 10**400, 1.5, {"a": 1}]
BAD_NAMES = ["", "X", "foo", "px ", "global weight", "x\u00e9", "r", "pt", "weight", "'", "mass2"]


def ops():
    set_double = st.tuples(st.just("set"), st.integers(0, 2), st.sampled_from(gen.DOUBLES),
                           gen.any_double)
    set_dint = st.tuples(st.just("set"), st.integers(0, 2), st.sampled_from(gen.DOUBLES),
                         st.integers(-1000, 1000))
    set_int = st.tuples(st.just("set"), st.integers(0, 2),
                        st.sampled_from(gen.INTS + sorted(gen.ALIASES)), gen.int32)
    bad = st.tuples(st.just("bad"), st.integers(0, 2), st.sampled_from(NAMES),
                    st.sampled_from(range(len(BAD_VALUES))))
    badname = st.tuples(st.just("badname"), st.integers(0, 2), st.sampled_from(BAD_NAMES),
                        st.just(1))
    deep = st.tuples(st.just("deepcopy"), st.integers(0, 2), st.integers(0, 2), st.just(0))
    alias = st.tuples(st.just("alias"), st.integers(0, 2), st.integers(0, 2), st.just(0))
    new = st.tuples(st.just("new"), st.integers(0, 2), st.just(0), st.just(0))
    return st.lists(st.one_of(set_double, set_double, set_int, set_int, set_dint, bad,
                              badname, deep, alias, new), min_size=1, max_size=40)


def fresh_model():
    m = dict((k, 0.0) for k in gen.DOUBLES)
    m["local_weight"] = 1.0
    m.update((k, 0) for k in gen.INTS)
    return m


def compare(hit, model, where):
    for key in model:
        got = hit[key]
        require(gen.same(got, model[key]), where, "variable", key, "is", repr(got),
                "expected", repr(model[key]))
        require(gen.same(hit.get(key), model[key]), where, "get", key)
    for alias, key in gen.ALIASES.items():
        # aliases are settable names of the same variable
        require(hit[key] == model[key], where, alias)


@FACETS.add(strategy=ops, quick=700, thorough=30000,
            rule="a case is a history of set/rejected set/copy/deepcopy/new on three Hits; "
                 "non-trivial: at least 4 accepted sets on at least two different variables")
def history(case, note):
    from xboa.hit import Hit
    hits = [Hit(), Hit(), Hit()]
    models = [fresh_model(), fresh_model(), fresh_model()]
    accepted = set()
    n = 0
    for step, (op, i, a, b) in enumerate(case):
        where = "after step %d %r:" % (step, (op, i, a, b))
        if op == "set":
            hits[i][a] = b
            key = gen.ALIASES.get(a, a)
            models[i][key] = float(b) if key in gen.DOUBLES else b
            accepted.add(key)
            n += 1
        elif op == "bad":
            value = BAD_VALUES[b]
            key = gen.ALIASES.get(a, a)
            ok_double = key in gen.DOUBLES and isinstance(value, (int, float)) and \
                not (isinstance(value, int) and abs(value) > 10**300)
            try:
                hits[i][a] = value
                if not ok_double:
                    raise Violation(where + " %r accepted %r" % (a, value))
                models[i][key] = float(value)
            except IndexError:
                if ok_double:
                    raise
            note.label("rejected" if not ok_double else "odd value accepted")
        elif op == "badname":
            if a == "":
                hits[i][a] = b  # documented no-op variable
            elif a in ("r", "pt", "weight"):  # derived, not settable
                try:
                    hits[i][a] = b
                    raise Violation(where + " set of %r accepted" % a)
                except IndexError:
                    pass
            else:
                for f in (lambda: hits[i].get(a), lambda: hits[i].set(a, b)):
                    try:
                        f()
                        raise Violation(where + " unknown variable %r accepted" % a)
                    except IndexError:
                        pass
            note.label("bad name")
        elif op == "deepcopy":
            hits[a] = hits[i].deepcopy()
            models[a] = dict(models[i])
            note.label("deepcopy")
        elif op == "alias":
            hits[a] = hits[i].copy()
            models[a] = models[i]
            note.label("alias")
        elif op == "new":
            hits[i] = Hit()
            models[i] = fresh_model()
        for j in range(3):
            compare(hits[j], models[j], where + " hit %d:" % j)
    note.nontrivial(n >= 4 and len(accepted) >= 2)


def core_ops():
    return st.lists(st.one_of(
        st.tuples(st.sampled_from(gen.DOUBLES), gen.any_double),
        st.tuples(st.sampled_from(gen.DOUBLES), st.sampled_from([float("inf"), float("-inf"),
                                                                float("nan")])),
        st.tuples(st.sampled_from(gen.INTS + sorted(gen.ALIASES)), gen.int32)),
        min_size=1, max_size=60)


@FACETS.add(strategy=core_ops, quick=500, thorough=20000,
            rule="sets on a Hitcore with any double incl. inf/nan and any 32 bit integer; "
                 "non-trivial: 5 or more sets")
def hitcore(case, note):
    from xboa.core import Hitcore
    core = Hitcore()
    model = fresh_model()
    for name, value in case:
        require(core.set(name, value) is None, "set returned a value")
        model[gen.ALIASES.get(name, name)] = value
    for key, value in model.items():
        got = core.get(key)
        require(gen.same(got, value), "Hitcore", key, "is", repr(got), "expected", repr(value))
    require(core == core, "Hitcore differs from itself")
    require(not (core == Hitcore()), "different Hitcores are equal")
    require(core != Hitcore(), "different Hitcores are not unequal")
    note.nontrivial(len(case) >= 5)


def dict_case():
    d = st.dictionaries(st.sampled_from(gen.DOUBLES), gen.any_double, max_size=12)
    i = st.dictionaries(st.sampled_from(gen.INTS), gen.int32, max_size=6)
    return st.tuples(d, i, st.permutations(range(18)))


@FACETS.add(strategy=dict_case, quick=500, thorough=20000,
            rule="new_from_dict from a random subset of variables in a random order; "
                 "non-trivial: 4 or more variables")
def from_dict(case, note):
    """A hit built from a dict holds exactly that data whatever the order of the keys."""
    from xboa.hit import Hit
    d, i, order = case
    items = list(d.items()) + list(i.items())
    items = [items[k] for k in order if k < len(items)]
    model = fresh_model()
    model.update(items)
    hit = Hit.new_from_dict(dict(items))
    compare(hit, model, "new_from_dict:")
    again = hit.dict_from_hit()
    for key in model:
        require(gen.same(again[key], model[key]), "dict_from_hit", key)
    require(set(again) >= set(model), "dict_from_hit misses", set(model) - set(again))
    note.nontrivial(len(items) >= 4)


@FACETS.add(strategy=lambda: st.tuples(
    st.lists(st.sampled_from(gen.DOUBLES), min_size=1, max_size=8),
    st.dictionaries(st.sampled_from(gen.DOUBLES), gen.fl(-1e6, 1e6), max_size=8),
    st.dictionaries(st.sampled_from(gen.DOUBLES), gen.fl(-1e6, 1e6), max_size=8)),
    quick=300, thorough=8000,
    rule="get_vector of a list of variables about an origin; non-trivial: an origin applies")
def vector(case, note):
    from xboa.hit import Hit
    names, data, origin = case
    hit = Hit.new_from_dict(data)
    vec = hit.get_vector(names, origin)
    require(vec.shape == (1, len(names)), "shape", vec.shape)
    for k, name in enumerate(names):
        want = data.get(name, 1.0 if name == "local_weight" else 0.0) - origin.get(name, 0.)
        require(float(vec[0, k]) == want, name, vec[0, k], want)
    note.nontrivial(any(n in origin for n in names))
