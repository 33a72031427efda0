"""W01: statistical weights over histories of sets, clears, cuts, context switches and
weight context arithmetic, seen through hits, contexts and bunch statistics."""
from hypothesis import strategies as st

from vlib.core import Registry, Violation, require, require_close, close
from checks import gen

FACETS = Registry()
ASSUMPTIONS = ["a weight context is a default plus explicit weights keyed by "
               "(spill, event, particle), as described in WeightContext.hh"]

WEIGHTS = st.sampled_from([0.0, 1.0, 0.5, 2.0, 0.25, 3.0, -1.0, 0.1, 1e-3])
ID = st.tuples(st.integers(-1, 1), st.integers(0, 2), st.integers(0, 1))
BIG_ID = st.tuples(gen.int32, gen.int32, gen.int32)
ANY_ID = st.one_of(ID, ID, ID, BIG_ID)
SLOT = st.integers(0, 2)
HIT = st.integers(0, 4)


class Model:
    def __init__(self, default=1.0, weights=None):
        self.default = default
        self.weights = dict(weights or {})

    def get(self, ident):
        return self.weights.get(tuple(ident), self.default)

    def copy(self):
        return Model(self.default, self.weights)

    def binary(self, op, other):
        f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
             "*": lambda a, b: a * b, "/": lambda a, b: a / b}[op]
        if isinstance(other, Model):
            ids = set(self.weights) | set(other.weights)
            return Model(f(self.default, other.default),
                         dict((i, f(self.get(i), other.get(i))) for i in ids))
        return Model(f(self.default, other), dict((i, f(w, other)) for i, w in self.weights.items()))

    def invert(self):
        return Model(0.0, dict((i, self.default if w == 0.0 else 0.0)
                               for i, w in self.weights.items()))

    def has_zero(self):
        return self.default == 0.0 or any(w == 0.0 for w in self.weights.values())


def ops():
    return st.lists(st.one_of(
        st.tuples(st.just("hit_gw"), HIT, WEIGHTS),
        st.tuples(st.just("hit_gw"), HIT, WEIGHTS),
        st.tuples(st.just("hit_lw"), HIT, WEIGHTS),
        st.tuples(st.just("hit_id"), HIT, ANY_ID),
        st.tuples(st.just("hit_new"), HIT, ANY_ID),
        st.tuples(st.just("ctx_set"), SLOT, ANY_ID, WEIGHTS, st.booleans()),
        st.tuples(st.just("ctx_default"), SLOT, WEIGHTS),
        st.tuples(st.just("ctx_new"), SLOT),
        st.tuples(st.just("ctx_get"), SLOT),
        st.tuples(st.just("switch"), SLOT),
        st.tuples(st.just("switch"), SLOT),
        st.tuples(st.just("binary"), st.sampled_from("+-*/"), SLOT, SLOT, SLOT),
        st.tuples(st.just("scalar"), st.sampled_from("+-*/"), SLOT, SLOT, WEIGHTS),
        st.tuples(st.just("rscalar"), st.sampled_from("+*"), SLOT, SLOT, WEIGHTS),
        st.tuples(st.just("inplace"), st.sampled_from("+-*/"), SLOT, SLOT),
        st.tuples(st.just("not"), SLOT, SLOT),
        st.tuples(st.just("clear")),
        st.tuples(st.just("cut"), gen.smooth(0, 5, 20), st.booleans()),
        st.tuples(st.just("rejected"), HIT),
    ), min_size=2, max_size=25)


def apply(op, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()


@FACETS.add(strategy=lambda: st.tuples(st.lists(ANY_ID, min_size=5, max_size=5), ops()),
            quick=700, thorough=30000,
            rule="history over 5 hits (ids collide), 3 weight contexts, switches, arithmetic, cuts "
                 "and clears; every hit weight, context weight and bunch statistic is compared with "
                 "a model after each step; non-trivial: a weight was set and a context switched, "
                 "or arithmetic was done on a context with explicit weights")
def history(case, note):
    from xboa.core import Hitcore, WeightContext
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    ids, steps = case
    gen.clear_weights()
    slots = [Hitcore.get_weight_context(), WeightContext(), WeightContext()]
    models = [Model(), Model(), Model()]
    current = models[0]   # models are shared exactly as contexts are
    hits, hit_ids, local = [], [], []
    for n, ident in enumerate(ids):
        hits.append(Hit.new_from_dict({"spill": ident[0], "event_number": ident[1],
                                       "particle_number": ident[2], "x": float(n), "y": n * n - 3.}))
        hit_ids.append(tuple(ident))
        local.append(1.0)
    bunch = Bunch()
    for hit in hits:
        bunch.append(hit)
    known = set(hit_ids) | {(0, 0, 0), (1, 2, 1), (0, 2, 1), (2, 0, 1)}
    n_set = n_switch = n_arith = 0
    for step, op in enumerate(steps):
        where = "after step %d %r:" % (step, op)
        kind = op[0]
        if kind == "hit_gw":
            hits[op[1]]["global_weight"] = op[2]
            current.weights[hit_ids[op[1]]] = op[2]
            n_set += 1
        elif kind == "hit_lw":
            hits[op[1]]["local_weight"] = op[2]
            local[op[1]] = op[2]
        elif kind == "hit_id":
            for key, value in zip(gen.IDS, op[2]):
                hits[op[1]][key] = value
            hit_ids[op[1]] = tuple(op[2])
            known.add(tuple(op[2]))
        elif kind == "hit_new":
            i = op[1]
            hits[i] = Hit.new_from_dict({"event_number": op[2][1], "spill": op[2][0], "x": float(i),
                                         "y": i * i - 3., "particle_number": op[2][2]})
            hit_ids[i] = tuple(op[2])
            known.add(tuple(op[2]))
            local[i] = 1.0
            bunch[i] = hits[i]
        elif kind == "ctx_set":
            if op[4]:
                slots[op[1]].set_weight(op[3], op[2][0], op[2][1], op[2][2])
            else:
                slots[op[1]].set_weight(weight=op[3], spill=op[2][0], event_number=op[2][1],
                                        particle_number=op[2][2])
            models[op[1]].weights[tuple(op[2])] = op[3]
            known.add(tuple(op[2]))
            n_set += 1
        elif kind == "ctx_default":
            slots[op[1]].set_default_weight(op[2])
            models[op[1]].default = op[2]
        elif kind == "ctx_new":
            slots[op[1]] = WeightContext()
            models[op[1]] = Model()
        elif kind == "ctx_get":
            slots[op[1]] = Hitcore.get_weight_context()
            models[op[1]] = current
        elif kind == "switch":
            Hitcore.set_weight_context(slots[op[1]])
            current = models[op[1]]
            n_switch += 1
        elif kind == "binary":
            if op[1] == "/" and models[op[3]].has_zero():
                continue
            n_arith += bool(models[op[2]].weights or models[op[3]].weights)
            new = apply(op[1], slots[op[2]], slots[op[3]])
            slots[op[4]] = new
            models[op[4]] = models[op[2]].binary(op[1], models[op[3]])
        elif kind == "scalar":
            if op[1] == "/" and op[4] == 0.0:
                continue
            n_arith += bool(models[op[2]].weights)
            new = apply(op[1], slots[op[2]], op[4])
            slots[op[3]] = new
            models[op[3]] = models[op[2]].binary(op[1], op[4])
        elif kind == "rscalar":
            new = apply(op[1], op[4], slots[op[2]])
            slots[op[3]] = new
            models[op[3]] = models[op[2]].binary(op[1], op[4])
        elif kind == "inplace":
            if op[1] == "/" and models[op[3]].has_zero():
                continue
            c = slots[op[2]]
            if op[1] == "+":
                c += slots[op[3]]
            elif op[1] == "-":
                c -= slots[op[3]]
            elif op[1] == "*":
                c *= slots[op[3]]
            else:
                c /= slots[op[3]]
            # an in-place operator either changes the context or rebinds the name
            rebound = c != slots[op[2]]
            new = models[op[2]].binary(op[1], models[op[3]])
            if rebound:
                models[op[2]] = new
            else:
                models[op[2]].default, models[op[2]].weights = new.default, new.weights
            slots[op[2]] = c
        elif kind == "not":
            n_arith += bool(models[op[1]].weights)
            new = ~slots[op[1]]
            slots[op[2]] = new
            models[op[2]] = models[op[1]].invert()
        elif kind == "clear":
            Hit.clear_global_weights()
            current.weights.clear()
        elif kind == "cut":
            bunch.cut({"x": op[1]}, lambda a, b: a >= b, global_cut=op[2])
            for i in range(5):
                if float(i) >= op[1]:
                    if op[2]:
                        current.weights[hit_ids[i]] = 0.0
                    else:
                        local[i] = 0.0
        elif kind == "rejected":
            for value in ("a", None, [1]):
                try:
                    hits[op[1]]["global_weight"] = value
                except IndexError:
                    pass
                else:
                    raise Violation(where + " global weight %r accepted" % (value,))
        # oracle
        for i in range(5):
            gw = current.get(hit_ids[i])
            require_close(hits[i]["global_weight"], gw, where + " hit %d %r global weight"
                          % (i, hit_ids[i]), rel=1e-12, abs_=1e-300)
            require(hits[i]["local_weight"] == local[i], where, "local weight of hit", i)
            require_close(hits[i]["weight"], gw * local[i], where + " weight of hit %d" % i, rel=1e-12,
                          abs_=1e-300)
        for j in range(3):
            require_close(slots[j].get_default_weight(), models[j].default,
                          where + " default of context %d" % j, rel=1e-12, abs_=1e-300)
            for ident in known:
                require_close(slots[j].get_weight(*ident), models[j].get(ident),
                              where + " context %d weight of %r" % (j, ident), rel=1e-12,
                              abs_=1e-300)
        ident = hit_ids[0]
        require(close(Hitcore.get_weight_context().get_weight(
            spill=ident[0], event_number=ident[1], particle_number=ident[2]), current.get(ident), 1e-12),
            where, "current context")
        weights = [current.get(hit_ids[i]) * local[i] for i in range(5)]
        total = sum(weights)
        scale = sum(abs(w) for w in weights)
        require_close(bunch.bunch_weight(), total, where + " bunch weight", rel=1e-9,
                      abs_=1e-12 * scale)
        if abs(total) > 1e-3 * scale and scale > 0:
            mean = sum(w * i for i, w in enumerate(weights)) / total
            require_close(bunch.mean(["x"])["x"], mean, where + " weighted mean", rel=1e-7, abs_=1e-9 * scale / abs(total))
            mom = sum(w * i * (i * i - 3.) for i, w in enumerate(weights)) / total
            require_close(bunch.moment(["x", "y"], {"x": 0., "y": 0.}), mom, where + " weighted moment",
                          rel=1e-7, abs_=1e-8 * scale / abs(total))
    note.nontrivial((n_set and n_switch) or n_arith)
    if n_switch:
        note.label("switched")
    if n_arith:
        note.label("arithmetic")
    gen.clear_weights()


def bad_args():
    val = st.one_of(st.integers(-2**40, 2**40), st.text(max_size=3), st.none(), st.floats())
    return st.tuples(st.lists(val, max_size=6),
                     st.dictionaries(st.sampled_from(["weight", "spill", "event_number",
                                                      "particle_number", "eventNumber", "foo"]),
                                     val, max_size=4))


@FACETS.add(strategy=bad_args, quick=500, thorough=20000,
            rule="arbitrary arguments to WeightContext get/set: either a well formed call or an "
                 "exception that changes nothing; non-trivial: the call was refused")
def arguments(case, note):
    from xboa.core import WeightContext
    ctx = WeightContext()
    ctx.set_weight(0.5, 1, 2, 3)
    args, kw = case

    def is_int(v):
        return isinstance(v, int) and -2**31 <= v < 2**31

    def is_num(v):
        return isinstance(v, (int, float))
    for names, func in ((["weight", "spill", "event_number", "particle_number"], ctx.set_weight),
                        (["spill", "event_number", "particle_number"], ctx.get_weight)):
        bound = dict(zip(names, args))
        good = len(args) <= len(names) and not (set(kw) & set(bound)) and not (set(kw) - set(names))
        bound.update(kw)
        good = good and set(bound) == set(names) and \
            all(is_int(bound[n]) for n in names if n != "weight") and \
            is_num(bound.get("weight", 0.))
        try:
            ret = func(*args, **kw)
        except Exception:
            require(not good, "refused", args, kw)
            note.nontrivial()
        else:
            require(good, func.__name__, "accepted", args, kw)
            ident = [bound[n] for n in names[-3:]]
            if func == ctx.set_weight:
                require(gen.same(ctx.get_weight(*ident), float(bound["weight"])), "not stored")
                if ident != [1, 2, 3]:
                    require(ctx.get_weight(1, 2, 3) == 0.5, "another weight changed")
                ctx = WeightContext()
                ctx.set_weight(0.5, 1, 2, 3)
            else:
                require(ret == (0.5 if ident == [1, 2, 3] else 1.0), "value", ret)
            continue
        require(ctx.get_weight(1, 2, 3) == 0.5 and ctx.get_weight(0, 0, 0) == 1.0 and
                ctx.get_default_weight() == 1.0, "context changed by a refused call")


def identity_pairs():
    return st.tuples(BIG_ID, st.lists(st.tuples(st.integers(0, 2), st.integers(-3, 3)), max_size=2),
                     st.lists(BIG_ID, max_size=8))


@FACETS.add(strategy=identity_pairs, quick=500, thorough=20000,
            rule="global weights of two ids that may differ in one or two parts by a little, among "
                 "others; distinct ids keep distinct weights; non-trivial: the ids differ")
def identity(case, note):
    from xboa.hit import Hit
    gen.clear_weights()
    base, deltas, others = case
    other = list(base)
    for k, d in deltas:
        other[k] = max(-2**31, min(2**31 - 1, other[k] + d))
    ids = [tuple(base), tuple(other)] + [tuple(o) for o in others]
    hits = [Hit.new_from_dict(dict(zip(gen.IDS, i))) for i in ids]
    want = {}
    for n, (hit, ident) in enumerate(zip(hits, ids)):
        hit["global_weight"] = n + 0.5
        want[ident] = n + 0.5
    for hit, ident in zip(hits, ids):
        require(hit["global_weight"] == want[ident], ident, hit["global_weight"], want[ident])
    Hit.clear_global_weights()
    for hit in hits:
        require(hit["global_weight"] == 1.0, "clear")
    gen.clear_weights()
    note.nontrivial(tuple(other) != tuple(base))
