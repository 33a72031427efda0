"""B03: cuts remove exactly the hits their condition names, and nothing else changes."""
import math
import operator

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
OPS = {"gt": operator.gt, "lt": operator.lt, "ge": operator.ge, "le": operator.le, "eq": operator.eq,
       "ne": operator.ne, "abs_gt": lambda a, b: abs(a) > abs(b)}
DBL = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bz", "charge"]
OTHER = ["r", "pt", "p", "x'", "event_number", "station", "pid", "ct", "kinetic_energy", "r_squared",
         "amplitude x", "amplitude x y", "amplitude y"]
VAR = st.one_of(st.sampled_from(DBL), st.sampled_from(DBL + OTHER))
ONE = st.tuples(VAR, st.one_of(st.integers(0, 40), gen.smooth(-3, 3, 24)), st.sampled_from(sorted(OPS)),
                st.booleans(), st.booleans())
CUTS = st.lists(ONE, min_size=1, max_size=4)


def values(model, variable):
    if variable.startswith("amplitude"):
        import numpy
        axes = variable.split(" ")[1:]
        cov_list = sum(([a, "p" + a] for a in axes), [])
        cov = numpy.array(model.cov(cov_list))
        mean = [model.mean(v) for v in cov_list]
        inv = numpy.linalg.inv(cov)
        emit = numpy.linalg.det(cov) ** (1.0 / len(cov_list)) / model.hits[0]["mass"]
        out = []
        for d in model.hits:
            u = numpy.array([d[v] - mu for v, mu in zip(cov_list, mean)])
            out.append(float(u @ inv @ u) * emit)
        return out
    return [ref.derived(d, variable) for d in model.hits]


def decide(vals, cut, op, exact):
    """(which are cut, None if one is too close to call)"""
    out = []
    for v in vals:
        if not exact and abs(v - cut) <= 1e-7 * (abs(v) + abs(cut)) + 1e-12:
            return None
        if not exact and op == "abs_gt" and abs(abs(v) - abs(cut)) <= 1e-7 * (abs(v) + abs(cut)):
            return None
        out.append(bool(OPS[op](v, cut)))
    return out


def cut_value(model, vals, variable, what, nsigma):
    """(argument to pass, the value it means, exact?)"""
    stored = variable in DBL + ["event_number", "station", "pid"]
    if nsigma:
        n = float(what)
        var = model.moment([variable, variable])
        if var < 1e-9 * model.scale([variable, variable]):
            return None
        return n, n * math.sqrt(var), False
    if isinstance(what, int):
        v = vals[what % len(vals)]  # exactly the value of one hit
        return v, v, stored
    lo, hi = min(vals), max(vals)
    v = lo + (hi - lo) * (what + 3) / 6
    return v, v, False


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, CUTS), quick=500, thorough=20000,
            rule="sequence of local and global cuts, by value or in standard deviations, on stored, integer, "
                 "derived and amplitude variables with any comparator: afterwards a hit has weight 0 "
                 "exactly if some condition named it, else its old weight; no hit value changes; "
                 "non-trivial: some hits cut and some not")
def cut(case, note):
    spec, cuts = case
    hits = gen.beam(spec, 5)
    bunch = gen.beam_bunch(hits)
    local = [d.get("local_weight", 1.0) for d in hits]
    glob = [d.get("global_weight", 1.0) for d in hits]
    stored = [[h[v] for v in DBL] for h in bunch]
    some = False
    for variable, what, op, nsigma, global_cut in cuts:
        model = ref.Bunch(hits, [a * b for a, b in zip(local, glob)])
        if model.weight() < 1e-6 or (variable.startswith("amp") and
                                     sum(1 for w in model.w if w) < 8):
            continue
        if variable.startswith("amplitude") and nsigma:
            continue
        if global_cut:
            note.label("global")
        vals = values(model, variable)
        value = cut_value(model, vals, variable, what, nsigma)
        if value is None:
            continue
        arg, real, exact = value
        which = decide(vals, real, op, exact)
        if which is None:
            note.label("too close")
            return
        bunch.cut({variable: arg}, OPS[op], nsigma, global_cut)
        for i, c in enumerate(which):
            if c:
                (glob if global_cut else local)[i] = 0.0
        where = "after cut of %s %s %r" % (variable, op, arg)
        for i, hit in enumerate(bunch):
            require(hit["local_weight"] == local[i], where, "hit", i, "local weight", hit["local_weight"],
                    "not", local[i])
            require(hit["global_weight"] == glob[i], where, "hit", i, "global weight",
                    hit["global_weight"], "not", glob[i])
            require([hit[v] for v in DBL] == stored[i], where, "hit", i, "changed")
        require_close(bunch.bunch_weight(), math.fsum(a * b for a, b in zip(local, glob)), where, 1e-12)
        note.label("nsigma" if nsigma else "value", "amplitude" if " " in variable else "plain")
        some = some or (any(which) and not all(which))
    require(len(bunch) == len(hits), "number of hits", len(bunch))
    note.nontrivial(some)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, CUTS), quick=400, thorough=15000,
            rule="sequence of conditional_remove: what is left is the sub-sequence of hits not named by a "
                 "condition, the same objects in the same order with the same weights; non-trivial: some "
                 "hits removed and some not")
def remove(case, note):
    spec, cuts = case
    hits = gen.beam(spec, 5)
    bunch = gen.beam_bunch(hits)
    keep = list(zip(hits, gen.weights_of(hits), list(bunch)))
    some = False
    for variable, what, op, nsigma, _ in cuts:
        model = ref.Bunch([k[0] for k in keep], [k[1] for k in keep])
        if not keep or model.weight() < 1e-6 or (variable.startswith("amp") and
                                                 (nsigma or sum(1 for w in model.w if w) < 8)):
            continue
        vals = values(model, variable)
        value = cut_value(model, vals, variable, what, nsigma)
        if value is None:
            continue
        arg, real, exact = value
        which = decide(vals, real, op, exact)
        if which is None:
            note.label("too close")
            return
        bunch.conditional_remove({variable: arg}, OPS[op], nsigma)
        some = some or (any(which) and not all(which))
        keep = [k for k, c in zip(keep, which) if not c]
        where = "after removing %s %s %r" % (variable, op, arg)
        require(len(bunch) == len(keep), where, len(bunch), "hits, not", len(keep))
        for i, k in enumerate(keep):
            require(bunch[i] is k[2], where, "hit", i, "is another hit")
            require(bunch[i]["weight"] == k[1], where, "hit", i, "changed weight")
        if keep and math.fsum(k[1] for k in keep) > 1e-6:
            model = ref.Bunch([k[0] for k in keep], [k[1] for k in keep])
            require_close(bunch.mean(["x"])["x"], model.mean("x"), where + " mean", 1e-9,
                          1e-11 * model.scale(["x"], {"x": 0.0}))
        note.label("nsigma" if nsigma else "value")
    note.nontrivial(some)


@FACETS.add(strategy=lambda: st.tuples(
    gen.beam_spec, st.sampled_from(["all", "removed", "none"]),
    st.lists(st.tuples(st.sampled_from(["x", "px", "y", "py", "t"]), gen.smooth(-0.5, 3, 16)),
             min_size=2, max_size=3, unique_by=lambda t: t[0])),
    quick=150, thorough=4000,
    rule="cuts on several variables in one call act one after another, each in the standard deviation "
         "left by the ones before; non-trivial: hits left")
def several(case, note):
    spec, how, conds = case
    hits = gen.beam(spec, 8)
    bunch = gen.beam_bunch(hits)
    local = [d.get("local_weight", 1.0) for d in hits]
    glob = [d.get("global_weight", 1.0) for d in hits]
    for variable, n in conds:
        model = ref.Bunch(hits, [a * b for a, b in zip(local, glob)])
        if model.weight() < 1e-6 or model.moment([variable] * 2) < 1e-9 * model.scale([variable] * 2):
            return
        which = decide(values(model, variable), n * math.sqrt(model.moment([variable] * 2)), "gt", False)
        if which is None:
            return
        local = [0.0 if c else w for c, w in zip(which, local)]
    bunch.cut(dict(conds), operator.gt, True)
    got = [hit["local_weight"] for hit in bunch]
    require(got == local, "weights", got, "expected", local)
    note.nontrivial(any(local))


@FACETS.add(strategy=lambda: st.tuples(
    st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 1), st.sampled_from([1.0, 0.5, 0.0])),
             min_size=0, max_size=12),
    st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), st.integers(0, 1)), max_size=12),
    st.booleans(),
    st.sampled_from([None, "event_number", "spill", "particle_number", "eventNumber", "x",
                     ["event_number", "spill"], ["particle_number"], ["x", "event_number"],
                     ["particle_number", "spill", "event_number"]])),
    quick=500, thorough=20000,
    rule="transmission_cut with any test variables, duplicates and empty bunches: a hit keeps its weight "
         "exactly if some hit of the test bunch has all the same values; the test bunch is unchanged; "
         "non-trivial: both kept and cut hits")
def transmission(case, note):
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    gen.clear_weights()
    mine, theirs, global_cut, var = case

    def make(t, w=1.0):
        return Hit.new_from_dict({"spill": t[0], "event_number": t[1], "particle_number": t[2],
                                  "x": t[1] * 3.0 + t[0], "local_weight": w})
    bunch = Bunch.new_from_hits([make(t, t[3]) for t in mine])
    test = Bunch.new_from_hits([make(t) for t in theirs])
    kwargs = {} if var is None else {"test_variable": var}
    names = ["spill", "event_number", "particle_number"] if var is None else \
        [var] if isinstance(var, str) else var
    key = lambda t: [{"spill": t[0], "event_number": t[1], "eventNumber": t[1], "particle_number": t[2],
                      "x": t[1] * 3.0 + t[0]}[n] for n in names]
    alive = [key(t) for t in theirs]
    require(bunch.transmission_cut(test, global_cut, **kwargs) is None, "returned something")
    dead_ids = set()
    for t in mine:
        if key(t) not in alive:
            dead_ids.add(tuple(t[:3]))
    for t, hit in zip(mine, bunch):
        kept = key(t) in alive
        if global_cut:
            require(hit["local_weight"] == t[3], "local weight changed by a global cut")
            # hits with the same id share the global weight
            require(hit["global_weight"] == (0.0 if tuple(t[:3]) in dead_ids else 1.0),
                    "hit", t, "global weight", hit["global_weight"])
        else:
            require(hit["local_weight"] == (t[3] if kept else 0.0), "hit", t, "weight",
                    hit["local_weight"], "kept", kept)
            require(hit["global_weight"] == 1.0, "global weight changed by a local cut")
    if not global_cut:
        require(all(hit["weight"] == 1.0 for hit in test), "the test bunch was cut")
    kept = sum(key(t) in alive for t in mine)
    note.label("global" if global_cut else "local", "default" if var is None else "variables")
    note.nontrivial(0 < kept < len(mine))


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from(["local", "global", "all"]), CUTS),
            quick=150, thorough=5000,
            rule="clear_local_weights, clear_global_weights and clear_weights undo cuts of their kind and "
                 "keep the other; non-trivial: a weight was not 1")
def clear(case, note):
    spec, how, cuts = case
    hits = gen.beam(spec)
    bunch = gen.beam_bunch(hits)
    for variable, what, op, nsigma, global_cut in cuts:
        if " " not in variable:
            bunch.cut({variable: hits[0].get(variable, 0.0)}, OPS[op], False, global_cut)
    local = [h["local_weight"] for h in bunch]
    glob = [h["global_weight"] for h in bunch]
    {"local": bunch.clear_local_weights, "global": bunch.clear_global_weights,
     "all": bunch.clear_weights}[how]()
    for i, h in enumerate(bunch):
        require(h["local_weight"] == (1.0 if how != "global" else local[i]), "local weight", how)
        require(h["global_weight"] == (1.0 if how != "local" else glob[i]), "global weight", how)
        require(h["weight"] == h["local_weight"] * h["global_weight"], "weight")
    note.nontrivial(any(w != 1 for w in local + glob))
