"""H03: copies, equality, repr and pickling of hits."""
import pickle

from hypothesis import strategies as st

from vlib.core import Registry, require
from checks import gen

FACETS = Registry()
ALL = gen.DOUBLES + gen.INTS


def data_case():
    return st.tuples(st.dictionaries(st.sampled_from(gen.DOUBLES), gen.any_double, max_size=20),
                     st.dictionaries(st.sampled_from(gen.INTS), gen.int32, max_size=6),
                     st.one_of(st.none(), gen.fl(0, 3)),
                     st.integers(0, 4), st.booleans())


def snapshot(hit):
    return dict((k, hit[k]) for k in ALL + ["global_weight"])


def equal_snap(a, b):
    return all(gen.same(a[k], b[k]) for k in a)


@FACETS.add(strategy=data_case, quick=500, thorough=20000,
            rule="deepcopy, copy.deepcopy, pickle (all protocols), repr-eval and dict round trip "
                 "of a hit with random data and global weight; non-trivial: 3+ variables set")
def reproduce(case, note):
    """Every way of reproducing a hit gives the same data, independent of the original."""
    import copy
    from xboa.hit import Hit
    gen.clear_weights()
    doubles, ints, gw, proto, bystander_first = case
    data = dict(doubles)
    data.update(ints)
    hit = Hit.new_from_dict(data)
    # a particle with nothing to do with this hit
    other_id = {"spill": 0, "event_number": 0, "particle_number": 0}
    if all(hit[k] == 0 for k in gen.IDS):
        other_id["spill"] = 1
    other = Hit.new_from_dict(other_id)
    if bystander_first:
        other["global_weight"] = 0.25
    if gw is not None:
        hit["global_weight"] = gw
    want = snapshot(hit)
    other_weight = other["global_weight"]
    with_repr = all(v == v and abs(v) != float("inf") for v in doubles.values())
    copies = [hit.deepcopy(), copy.deepcopy(hit), pickle.loads(pickle.dumps(hit, proto)),
              Hit.new_from_dict(hit.dict_from_hit())]
    if with_repr:
        copies.append(eval(repr(hit), {"Hit": Hit}))
    for n, dup in enumerate(copies):
        require(dup is not hit, n, "is the original")
        require(type(dup) is Hit, n, "type")
        require(equal_snap(snapshot(dup), want), "copy", n, "differs", snapshot(dup), want)
        require(other["global_weight"] == other_weight, "copy", n, "changed the global weight of "
                "another particle from", other_weight, "to", other["global_weight"])
    # a hit pickled in one context and loaded where nothing is known of it
    text = pickle.dumps(hit, proto)
    gen.clear_weights()
    back = pickle.loads(text)
    require(equal_snap(snapshot(back), want), "unpickled in a fresh context:", snapshot(back), want)
    require(other["global_weight"] == 1.0, "unpickling changed the weight of another particle")
    # independence
    for dup in copies:
        dup["x"] = -12345.678
        dup["pid"] = 987
        dup["station"] = 55
    require(equal_snap(snapshot(hit), want), "original changed through a copy")
    alias = hit.copy()
    require(alias is hit or equal_snap(snapshot(alias), snapshot(hit)), "copy() differs")
    hit["y"] = 77.25
    require(alias["y"] == 77.25, "copy() is not a reference to the same data")
    alias["px"] = -3.5
    require(hit["px"] == -3.5, "copy() is not a reference to the same data")
    note.nontrivial(len(data) >= 3)
    if gw is not None:
        note.label("global weight")


@FACETS.add(strategy=lambda: st.tuples(gen.particle(fields=True), st.lists(st.tuples(
    st.sampled_from(ALL), st.sampled_from([0., 1e-12, 1e-10, -1e-10, 2e-9, -2e-9, 1e-3, 1., -5.]),
    ), max_size=3)), quick=600, thorough=20000,
    rule="equality of two hits that differ by given amounts in given variables against the "
         "documented tolerance; non-trivial: a difference was applied")
def equality(case, note):
    from xboa.hit import Hit
    import xboa.common
    gen.clear_weights()
    data, changes = case
    a = Hit.new_from_dict(data)
    b = Hit.new_from_dict(data)
    require(a == b and not (a != b), "equal hits are not equal")
    for key, delta in changes:
        b[key] = (b[key] + int(delta)) if key in gen.INTS else b[key] + delta
    tol = xboa.common.float_tolerance
    diffs = [abs(a[k] - b[k]) for k in ALL]
    if any(abs(d - tol) < 1e-10 for d in diffs):
        return
    want = all(d <= tol for d in diffs)
    require((a == b) is want, "== gives", a == b, "expected", want, changes)
    require((b == a) is want, "== is not symmetric")
    require((a != b) is (not want), "!= disagrees with ==")
    require(not (a == 3) and a != 3 and not (a == None), "equal to something that is not a hit")
    # a looser tolerance is honoured
    require(a.__eq__(b, 100.) is all(d <= 100. for d in diffs), "tolerance argument")
    note.nontrivial(bool(changes))
    note.label("equal" if want else "different")
