"""B01: a Bunch is a list of hits under any history of edits, and its statistics follow the list."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require, require_close
from checks import gen

FACETS = Registry()
X = gen.smooth(-10, 10, 400)
IDX = st.integers(-9, 9)
SLICE = st.tuples(st.one_of(st.none(), IDX), st.one_of(st.none(), IDX), st.sampled_from([None, 1, 2, -1]))


def ops():
    hit = st.tuples(X, X, st.sampled_from([1.0, 0.5, 2.0, 0.0]))
    return st.lists(st.one_of(
        st.tuples(st.just("append"), hit), st.tuples(st.just("append"), hit),
        st.tuples(st.just("append_same"), IDX),
        st.tuples(st.just("set"), IDX, hit), st.tuples(st.just("del"), IDX),
        st.tuples(st.just("delslice"), SLICE),
        st.tuples(st.just("setslice"), SLICE, st.lists(hit, max_size=3)),
        st.tuples(st.just("edit"), IDX, st.sampled_from(["x", "y", "local_weight"]), X),
        st.tuples(st.just("remove"), st.sampled_from(["x", "y"]), X, st.booleans()),
        st.tuples(st.just("bad"), IDX, st.sampled_from(["append", "set"])),
        st.tuples(st.just("translate"), X),
        st.tuples(st.just("hits"), st.just(0)),
    ), min_size=1, max_size=16)


@FACETS.add(strategy=lambda: st.tuples(st.lists(st.tuples(X, X, st.just(1.0)), max_size=5), ops()),
            quick=500, thorough=25000,
            rule="history of append, item and slice set and delete (any index sign), removal by "
                 "condition, edits through the hits and refused edits, on a Bunch and on a list; "
                 "length, order, identity, weights, means and moments compared after each step; "
                 "non-trivial: a hit was deleted, replaced or removed")
def history(case, note):
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    gen.clear_weights()
    start, steps = case
    counter = [0]

    def make(h):
        counter[0] += 1
        return Hit.new_from_dict({"x": h[0], "y": h[1], "local_weight": h[2],
                                  "event_number": counter[0]})
    bunch = Bunch()
    model = []
    for h in start:
        hit = make(h)
        bunch.append(hit)
        model.append(hit)
    for step, op in enumerate(steps):
        where = "step %d %r:" % (step, op)
        n = len(model)
        if op[0] == "append":
            hit = make(op[1])
            bunch.append(hit)
            model.append(hit)
        elif op[0] == "append_same":
            if n:
                bunch.append(model[op[1] % n])
                model.append(model[op[1] % n])
                note.label("shared")
        elif op[0] in ("set", "del"):
            ok = -n <= op[1] < n
            try:
                if op[0] == "set":
                    hit = make(op[2])
                    bunch[op[1]] = hit
                else:
                    del bunch[op[1]]
            except IndexError:
                require(not ok, where, "refused")
            else:
                require(ok, where, "accepted with", n, "hits")
                if op[0] == "set":
                    model[op[1]] = hit
                else:
                    del model[op[1]]
                note.nontrivial()
                if op[1] < 0:
                    note.label("negative index")
        elif op[0] == "delslice":
            s = slice(*op[1])
            del bunch[s]
            note.nontrivial(len(model[s]) > 0)
            del model[s]
        elif op[0] == "setslice":
            s = slice(*op[1])
            hits = [make(h) for h in op[2]]
            trial = list(model)
            try:
                trial[s] = hits
            except ValueError:
                try:
                    bunch[s] = hits
                except ValueError:
                    pass
                else:
                    raise Violation(where + " accepted")
            else:
                bunch[s] = hits
                note.nontrivial(len(model[s]) > 0)
                model = trial
        elif op[0] == "edit":
            if n:
                bunch[op[1] % n][op[2]] = abs(op[3]) if op[2] == "local_weight" else op[3]
        elif op[0] == "remove":
            # remove where comparator(value, cut) is true
            bunch.conditional_remove({op[1]: op[2]}, (lambda a, b: a > b) if op[3] else
                                     (lambda a, b: a <= b))
            kept = [h for h in model if (h[op[1]] <= op[2]) == op[3]]
            note.nontrivial(len(kept) < n)
            model = kept
        elif op[0] == "bad":
            try:
                if op[2] == "append":
                    bunch.append("not a hit")
                elif -n <= op[1] < n:
                    bunch[op[1]] = "not a hit"
                else:
                    continue
            except Exception:
                pass
            else:
                raise Violation(where + " accepted a string as a hit")
        elif op[0] == "translate":
            bunch.translate({"x": op[1]})
        elif op[0] == "hits":
            require(len(bunch.hits()) == n, where, "hits()")
        check_state(bunch, model, where)
    gen.clear_weights()


def check_state(bunch, model, where):
    n = len(model)
    require(len(bunch) == n, where, "length", len(bunch), n)
    require(str(bunch) == "<Bunch of %d Hits>" % n, where, str(bunch))
    require([id(h) for h in bunch] == [id(h) for h in model], where, "iteration")
    require([id(h) for h in bunch.hits()] == [id(h) for h in model], where, "hits()")
    for i in range(-n, n):
        require(bunch[i] is model[i], where, "item", i)
    for i in (n, -n - 1):
        try:
            bunch[i]
        except IndexError:
            pass
        else:
            raise Violation("%s no IndexError for index %d of %d" % (where, i, n))
    require([id(h) for h in bunch[1:-1]] == [id(h) for h in model[1:-1]], where, "slice")
    w = [h["local_weight"] * h["global_weight"] for h in model]
    total = math.fsum(w)
    require_close(bunch.bunch_weight(), total, where + " weight", rel=1e-12, abs_=1e-12)
    if total < 1e-3:
        try:
            bunch.mean(["x"])
        except ZeroDivisionError:
            return
        if abs(total) < 1e-10:
            raise Violation(where + " mean of a bunch without weight")
        return
    xs, ys = [h["x"] for h in model], [h["y"] for h in model]
    mx = math.fsum(a * b for a, b in zip(w, xs)) / total
    my = math.fsum(a * b for a, b in zip(w, ys)) / total
    got = bunch.mean(["x", "y"])
    scale = max([1.0] + [abs(v) for v in xs + ys]) * (1 + max(w) / total)
    require_close(got["x"], mx, where + " mean x", rel=1e-9, abs_=1e-10 * scale)
    require_close(got["y"], my, where + " mean y", rel=1e-9, abs_=1e-10 * scale)
    mxy = math.fsum(a * (b - mx) * (c - my) for a, b, c in zip(w, xs, ys)) / total
    require_close(bunch.moment(["x", "y"]), mxy, where + " moment", rel=1e-9, abs_=1e-9 * scale ** 2)
    values = bunch.list_get_hit_variable(["x", "r"])
    require(values[0] == xs, where, "values")


def split_cases():
    return st.lists(st.tuples(X, st.integers(-2, 3), st.integers(0, 2), gen.smooth(-3, 3, 40),
                              st.sampled_from([{}, {}, {"pid": -13, "mass": 105.6583715, "pz": 200.0, "energy": 100.0},
                                               {"pid": 11, "mass": 3.0}, {"energy": -5.0}, {"pid": 77, "x": math.nan}])),
                    max_size=10)


@FACETS.add(strategy=split_cases, quick=250, thorough=8000,
            rule="split by an integer or real variable, get_hits with a value and comparator: a "
                 "partition in the original order, of hits on the mass shell or not; non-trivial: more than one part")
def split(case, note):
    import operator
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    gen.clear_weights()
    hits = [Hit.new_from_dict(dict({"x": x, "station": s, "event_number": e, "z": z}, **extra)) for x, s, e, z, extra in case]
    bunch = Bunch()
    for h in hits:
        bunch.append(h)
    for var in ("station", "event_number", "z"):
        parts = bunch.split(var)
        want = {}
        for h in hits:
            want.setdefault(int(h[var]), []).append(h)
        require(set(parts) == set(want), var, "keys", sorted(parts), sorted(want))
        for key in want:
            require([id(h) for h in parts[key].hits()] == [id(h) for h in want[key]], var, "part", key)
            require_close(parts[key].bunch_weight(), len(want[key]), "part weight", rel=1e-12)
        note.nontrivial(len(want) > 1)
    require([id(h) for h in bunch.hits()] == [id(h) for h in hits], "split changed the bunch")
    for value in (0, 1, 2.0):
        for comp in (operator.eq, operator.lt, operator.ge, operator.ne):
            for var in ("station", "z", "r"):
                got = bunch.get_hits(var, value, comp)
                require([id(h) for h in got] == [id(h) for h in hits if comp(h[var], value)],
                        "get_hits", var, value, comp)
    require([id(h) for h in bunch.get_hits("station", 1)] ==
            [id(h) for h in hits if h["station"] == 1], "get_hits default comparator")
