"""X01: the C++ core containers share hits, keep holes, agree with a list model, and leak nothing."""
import gc
import math
import sys

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require, require_close
from checks import gen

FACETS = Registry()
ASSUMPTIONS = ["negative Bunchcore indices are left to C++ conventions pinned by the tests and are "
               "not generated here"]
VALUE = gen.smooth(-10, 10, 400)
NAMES = ["x", "y", "px", "t", "energy"]


def core_ops():
    idx = st.integers(0, 12)
    hc = st.integers(0, 5)
    return st.lists(st.one_of(
        st.tuples(st.just("set"), hc, idx), st.tuples(st.just("set"), hc, idx),
        st.tuples(st.just("del"), idx),
        st.tuples(st.just("hit"), hc, st.sampled_from(NAMES), VALUE),
        st.tuples(st.just("through"), idx, st.sampled_from(NAMES), VALUE),
        st.tuples(st.just("weight"), hc, st.sampled_from([0., 1., .5, 2.])),
        st.tuples(st.just("drop"), hc),
        st.tuples(st.just("new"), hc),
        st.tuples(st.just("cut"), st.sampled_from(NAMES), VALUE, st.booleans()),
    ), min_size=1, max_size=20)


@FACETS.add(strategy=core_ops, quick=500, thorough=25000,
            rule="set/delete/replace Hitcores in a Bunchcore, edit hits through any reference, drop "
                 "references, cut; length, items, weights and moments compared with a list of shared "
                 "records after each step; non-trivial: a hole or a shared hit was present")
def container(case, note):
    from xboa.core import Hitcore, Bunchcore
    gen.clear_weights()
    before = Hitcore.dump_memory()
    bc = Bunchcore()
    handles, records = [], []
    counter = [0]

    def fresh():
        h = Hitcore()
        h.set("event_number", counter[0])
        counter[0] += 1
        return h, {"id": counter[0] - 1, "w": 1.0, "gw": 1.0, "v": dict((n, 0.0) for n in NAMES)}
    for _ in range(6):
        h, r = fresh()
        handles.append(h)
        records.append(r)
    model = []
    for step, op in enumerate(case):
        where = "step %d %r:" % (step, op)
        if op[0] == "set":
            while len(model) <= op[2]:
                model.append(None)
            if handles[op[1]] is None:
                handles[op[1]], records[op[1]] = fresh()
            bc.set_item(handles[op[1]], op[2])
            model[op[2]] = records[op[1]]
        elif op[0] == "del":
            if op[1] < len(model):
                bc.del_item(op[1])
                del model[op[1]]
            else:
                try:
                    bc.del_item(op[1])
                except IndexError:
                    pass
                else:
                    raise Violation(where + " no IndexError")
        elif op[0] == "hit":
            if handles[op[1]] is not None:
                handles[op[1]].set(op[2], op[3])
                records[op[1]]["v"][op[2]] = op[3]
        elif op[0] == "through":
            if op[1] < len(model) and model[op[1]] is not None:
                bc.get_item(op[1]).set(op[2], op[3])
                model[op[1]]["v"][op[2]] = op[3]
        elif op[0] == "weight":
            if handles[op[1]] is not None:
                handles[op[1]].set("local_weight", op[2])
                records[op[1]]["w"] = op[2]
        elif op[0] == "drop":
            handles[op[1]] = None
            records[op[1]] = None
        elif op[0] == "new":
            handles[op[1]], records[op[1]] = fresh()
        elif op[0] == "cut":
            bc.cut_double(op[1], lambda a, b: a > b, op[2], op[3])
            for r in model:
                if r is not None and r["v"][op[1]] > op[2]:
                    r["gw" if op[3] else "w"] = 0.0
        # oracle
        require(bc.length() == len(model) and len(bc) == len(model), where, "length", bc.length(),
                len(model))
        for i, r in enumerate(model):
            item = bc.get_item(i)
            if r is None:
                require(item is None, where, "hole", i, "holds", item)
                note.nontrivial()
                continue
            require(item is not None, where, "item", i, "lost")
            require(item.get("event_number") == r["id"], where, "item", i, "is hit",
                    item.get("event_number"), "not", r["id"])
            for n in NAMES:
                require(item.get(n) == r["v"][n], where, "item", i, n, item.get(n), r["v"][n])
            require(item.get("local_weight") == r["w"], where, "local weight", i)
            require(item.get("weight") == r["w"] * r["gw"], where, "weight", i)
        try:
            bc.get_item(len(model))
        except IndexError:
            pass
        else:
            raise Violation(where + " get_item past the end")
        for i, h in enumerate(handles):
            if h is not None:
                for n in NAMES:
                    require(h.get(n) == records[i]["v"][n], where, "handle", i, n)
        present = [r for r in model if r is not None]
        if len(set(r["id"] for r in present)) < len(present):
            note.nontrivial()
            note.label("shared")
        total = sum(r["w"] * r["gw"] for r in present)
        if total > 0:
            want = sum(r["w"] * r["gw"] * r["v"]["x"] * r["v"]["y"] for r in present) / total
            require_close(bc.moment(["x", "y"], {}), want, where + " moment", rel=1e-9, abs_=1e-9)
            mat = bc.covariance_matrix(["x", "px"], {"x": 1.5})
            for a, na in enumerate(("x", "px")):
                for b, nb in enumerate(("x", "px")):
                    want = sum(r["w"] * r["gw"] * (r["v"][na] - (1.5 if na == "x" else 0.)) *
                               (r["v"][nb] - (1.5 if nb == "x" else 0.)) for r in present) / total
                    require_close(mat[a][b], want, where + " covariance", rel=1e-9, abs_=1e-9)
    # everything that was made is released
    if len(case) % 4 == 0:
        item = h = r = mat = None
        live = len(set(r["id"] for r in model if r is not None))
        handles[:] = []
        gc.collect()
        after = Hitcore.dump_memory()
        require(len(after) - len(before) == live, "hits alive", len(after) - len(before), "wanted",
                live)
        del bc
        gc.collect()
        after = Hitcore.dump_memory()
        require(len(after) == len(before), "hits alive after the container died:",
                len(after) - len(before))
        note.label("released")


def tensor_cases():
    n = st.integers(1, 3)
    return st.tuples(n, st.one_of(st.integers(1, 4), st.integers(1, 7)),
                     st.lists(st.tuples(VALUE, VALUE, VALUE, st.sampled_from([1., .5, 2., 0.])),
                              min_size=1, max_size=6))


@FACETS.add(strategy=tensor_cases, quick=250, thorough=8000,
            rule="moment tensors: every power of the axes up to max_power exactly once, each value the "
                 "weighted raw moment; non-trivial: more than one axis and power above 1")
def tensor(case, note):
    import itertools
    from xboa.core import Hitcore, Bunchcore
    gen.clear_weights()
    n_axes, power, rows = case
    axes = ["x", "y", "px"][:n_axes]
    bc = Bunchcore()
    for i, row in enumerate(rows):
        h = Hitcore()
        for a, v in zip(["x", "y", "px", "local_weight"], row):
            h.set(a, v)
        bc.set_item(h, i)
    index = bc.index_by_power(power, n_axes)
    want = [list(p) for p in itertools.product(range(power + 1), repeat=n_axes) if sum(p) <= power]
    require(sorted(index) == sorted(want), "index", index, want)
    total = sum(r[3] for r in rows)
    if total < 0.1:
        note.label("no weight")
        try:
            bc.moment_tensor(axes, power)
        except RuntimeError:
            return
        raise Violation("moment tensor of a bunch without weight")
    tens = bc.moment_tensor(axes, power)
    require(len(tens) == len(index), "lengths", len(tens), len(index))
    for p, t in zip(index, tens):
        w = sum(r[3] * math.prod(r[k] ** p[k] for k in range(n_axes)) for r in rows) / total
        scale = sum(r[3] * math.prod(abs(r[k]) ** p[k] for k in range(n_axes)) for r in rows) / total
        require_close(t, w, "moment %r" % (p,), rel=1e-9, abs_=1e-11 * scale + 1e-300)
    note.nontrivial(n_axes > 1 and power > 1)


def leak_cases():
    return st.tuples(st.sampled_from(LEAK_NAMES), st.booleans())


LEAK_NAMES = ["get", "set", "bad set", "get_item", "set_item", "moment", "moment bad", "cov", "cov bad",
              "cut", "cut bad", "tensor", "index", "ctx get", "ctx set", "ctx arith", "ctx switch",
              "new hit", "new bunch", "names", "dump", "bad get", "del_item", "eq", "bad item"]


@FACETS.add(strategy=None, examples=lambda: [[n] for n in LEAK_NAMES], exhaustive=True,
            rule="each kind of call into the core modules, repeated 3000 times: no growth in python "
                 "blocks, C heap, or references to its arguments; every case is non-trivial")
def leaks(case, note):
    import ctypes
    from xboa.core import Hitcore, Bunchcore, WeightContext
    gen.clear_weights()
    name = case[0]

    class MallInfo(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in (
            "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
            "fordblks", "keepcost")]
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = MallInfo
    h = Hitcore()
    h2 = Hitcore()
    bc = Bunchcore()
    for i in range(3):
        bc.set_item(h, i)
    ctx = WeightContext()
    var = "".join(["loc", "al_weight"])
    val = 1.25 + len(name) * 1e-3
    axes = ["".join(["p", "x"]), "".join(["p", "y"])]
    means = {"".join(["p", "z"]): 1.75 + val}
    big = 2**40 + len(name)

    def comp(a, b):
        return a > b

    def bad(a, b):
        raise ValueError("no")

    def quiet(func, *args):
        try:
            func(*args)
        except Exception:
            pass

    def item():
        bc.set_item(h2, 5)
        bc.del_item(5)
    calls = {
        "get": lambda: h.get(var), "set": lambda: h.set(var, val),
        "bad set": lambda: (quiet(h.set, var, axes), quiet(h.set, "nonesuch", val),
                            quiet(h.set, "pid", big)),
        "bad get": lambda: (quiet(h.get, "nonesuch"), quiet(h.get, val)),
        "get_item": lambda: bc.get_item(1), "set_item": lambda: bc.set_item(h2, 1),
        "del_item": item, "moment": lambda: bc.moment(axes, means),
        "moment bad": lambda: (quiet(bc.moment, [val], means), quiet(bc.moment, axes, [var]),
                               quiet(bc.moment, axes, {var: var}), quiet(bc.moment, ["abc"], {})),
        "cov": lambda: bc.covariance_matrix(axes, means),
        "cov bad": lambda: (quiet(bc.covariance_matrix, [val], means),
                            quiet(bc.covariance_matrix, axes, [var]),
                            quiet(bc.covariance_matrix, ["abc"], {})),
        "cut": lambda: (bc.cut_double(var, comp, val, False), bc.cut_double(var, comp, val, True)),
        "cut bad": lambda: (quiet(bc.cut_double, var, bad, val, False),
                            quiet(bc.cut_double, var, val, val, False),
                            quiet(bc.cut_double, "abc", comp, val, False),
                            quiet(bc.cut_double, var, lambda a, b: axes, val, False)),
        "tensor": lambda: bc.moment_tensor(axes, 3),
        "index": lambda: bc.index_by_power(3, 2),
        "ctx get": lambda: (ctx.get_weight(1, 2, 3), ctx.get_default_weight(),
                            quiet(ctx.get_weight, big, 1, 2), quiet(ctx.get_weight, var)),
        "ctx set": lambda: (ctx.set_weight(val, 1, 2, 3), ctx.set_default_weight(val),
                            quiet(ctx.set_weight, var, 1, 2, 3)),
        "ctx arith": lambda: (ctx + ctx, ctx * val, val * ctx, ctx - ctx, ~ctx, quiet(
            lambda: ctx + var)),
        "ctx switch": lambda: (Hitcore.set_weight_context(ctx), Hitcore.get_weight_context(),
                               Hitcore.set_weight_context(WeightContext()),
                               quiet(Hitcore.set_weight_context, var)),
        "new hit": lambda: Hitcore(),
        "new bunch": lambda: (Bunchcore(), Bunchcore().set_item(h, 2)),
        "names": lambda: (Hitcore.get_variables(), Hitcore.set_variables()),
        "dump": lambda: Hitcore.dump_memory(),
        "eq": lambda: (h == h2, h != h2, h == var, ctx == ctx),
        "bad item": lambda: (quiet(bc.get_item, big), quiet(bc.get_item, var),
                             quiet(bc.set_item, var, 1), quiet(bc.set_item, h2, var)),
    }
    func = calls[name]
    watched = [var, val, axes, axes[0], axes[1], means, big, comp, bad, h, h2, bc, ctx]

    def measure(n):
        for _ in range(n):
            func()
        gc.collect()
        return sys.getallocatedblocks(), libc.mallinfo2().uordblks, \
            [sys.getrefcount(w) for w in watched]
    measure(200)
    n = 3000
    a = measure(10)
    b = measure(n)
    require(b[0] - a[0] < n // 4, name, "python blocks grew by", b[0] - a[0], "in", n, "calls")
    require(b[1] - a[1] < 8 * n, name, "C heap grew by", b[1] - a[1], "in", n, "calls")
    for i, (x, y) in enumerate(zip(a[2], b[2])):
        require(abs(x - y) < n // 10, name, "references to argument", i, "went from", x, "to", y)
    note.nontrivial()


NO_DOUBLE = st.sampled_from(["a", None, [], {}, [1.5], "1.5"])
NO_INT = st.sampled_from(["a", None, [], {}, 1.5, "1"])
NO_NAME = st.sampled_from(["abc", "", "X", "x ", "mean", "é"])
NO_LIST = st.sampled_from(["x", None, {"x": 1.5}, 3, 1.5])
NO_DICT = st.sampled_from([None, [], "x", 1.5, [["x", 1.5]]])


def _bad(name, which):
    return st.tuples(st.just(name), which)


REFUSED = st.one_of(
    _bad("get_item", st.one_of(NO_INT, st.integers(3, 2**70))), _bad("del_item", st.one_of(NO_INT, st.integers(3, 2**70))),
    _bad("set_item index", NO_INT), _bad("set_item value", st.one_of(NO_DOUBLE, NO_INT)),
    _bad("moment name", NO_NAME), _bad("moment names", NO_LIST), _bad("moment means", NO_DICT), _bad("moment mean", NO_DOUBLE),
    _bad("moment key", st.just(1)), _bad("cov name", NO_NAME), _bad("cov names", NO_LIST), _bad("cov means", NO_DICT),
    _bad("cov mean", NO_DOUBLE), _bad("cut name", NO_NAME), _bad("cut comparator", NO_DOUBLE), _bad("cut value", NO_DOUBLE),
    _bad("tensor name", NO_NAME), _bad("tensor names", NO_LIST), _bad("tensor power", st.one_of(NO_INT, st.integers(-9, -1))),
    _bad("index power", st.one_of(NO_INT, st.integers(-9, -1))), _bad("index axes", st.one_of(NO_INT, st.integers(-9, 0))),
    _bad("get", st.one_of(NO_NAME, st.sampled_from([1, None]))), _bad("set name", NO_NAME), _bad("set double", NO_DOUBLE),
    _bad("set int", st.one_of(NO_INT, st.integers(2**31, 2**66))), _bad("weight id", NO_INT), _bad("set weight id", NO_INT),
    _bad("set weight", NO_DOUBLE), _bad("default weight", NO_DOUBLE), _bad("context", NO_DOUBLE), _bad("add", st.sampled_from(["a", None, [], {}, [1.5]])))


@FACETS.add(strategy=lambda: st.tuples(REFUSED, st.integers(0, 2)), quick=300, thorough=6000,
            rule="a call into the core with an argument of the wrong type, an unknown name or an index out of range is "
                 "refused with an ordinary exception, and bunch, hits and weights stay as they were; every case is "
                 "non-trivial")
def refused(case, note):
    from xboa.core import Hitcore, Bunchcore, WeightContext
    gen.clear_weights()
    (name, bad), at = case
    hits, b = [Hitcore() for _ in range(3)], Bunchcore()
    for i, h in enumerate(hits):
        for k, v in (("x", 1.5 + i), ("px", -2.0 * i), ("pid", -13), ("event_number", i)):
            h.set(k, v)
        b.set_item(h, i)
    w = WeightContext()
    w.set_default_weight(0.5)
    w.set_weight(0.25, 1, 2, 3)
    h = hits[at]
    ids, axes = [1, 2, 3], ["x", "px"]
    ids[at] = bad
    axes.insert(at, bad)
    calls = {
        "get_item": lambda: b.get_item(bad), "del_item": lambda: b.del_item(bad), "set_item index": lambda: b.set_item(h, bad),
        "set_item value": lambda: b.set_item(bad, at), "moment name": lambda: b.moment(axes, {}),
        "moment names": lambda: b.moment(bad, {}), "moment means": lambda: b.moment(["x"], bad),
        "moment mean": lambda: b.moment(["x"], {"x": bad}), "moment key": lambda: b.moment(["x"], {bad: 1.5}),
        "cov name": lambda: b.covariance_matrix(axes, {}), "cov names": lambda: b.covariance_matrix(bad, {}),
        "cov means": lambda: b.covariance_matrix(["x"], bad), "cov mean": lambda: b.covariance_matrix(["x"], {"x": bad}),
        "cut name": lambda: b.cut_double(bad, lambda p, q: True, 0.5, False),
        "cut comparator": lambda: b.cut_double("x", bad, 0.5, True),
        "cut value": lambda: b.cut_double("x", lambda p, q: True, bad, True), "tensor name": lambda: b.moment_tensor(axes, 2),
        "tensor names": lambda: b.moment_tensor(bad, 2), "tensor power": lambda: b.moment_tensor(["x"], bad),
        "index power": lambda: b.index_by_power(bad, 2), "index axes": lambda: b.index_by_power(2, bad),
        "get": lambda: h.get(bad), "set name": lambda: h.set(bad, 2), "set double": lambda: h.set("x", bad),
        "set int": lambda: h.set("pid", bad), "weight id": lambda: w.get_weight(*ids),
        "set weight id": lambda: w.set_weight(1.5, *ids), "set weight": lambda: w.set_weight(bad, 1, 2, 3),
        "default weight": lambda: w.set_default_weight(bad), "context": lambda: Hitcore.set_weight_context(bad),
        "add": lambda: w + bad}

    def state():
        return [len(b)] + [[i.get(n) for n in ("x", "px", "pid", "event_number", "local_weight", "global_weight")]
                           for i in [b.get_item(j) for j in range(len(b))] + hits] + \
            [w.get_default_weight(), w.get_weight(1, 2, 3), w.get_weight(3, 2, 1), b.moment(["x", "px"], {})]
    before = state()
    try:
        got = calls[name]()
    except (TypeError, ValueError, KeyError, IndexError, RuntimeError, OverflowError, NotImplementedError) as exc:
        require(str(exc), "an exception that says nothing", name, bad)
        if name in ("get_item", "del_item") and isinstance(bad, int):
            require(isinstance(exc, IndexError), name, bad, "raised", repr(exc))
    else:
        raise Violation("%s with %r gave %r" % (name, bad, got))
    require(state() == before, "changed by a refused call", name, bad)
    note.label(name)
    note.nontrivial()
