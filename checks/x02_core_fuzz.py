"""X02: no sequence of calls into the C++ core, with any arguments, crashes the interpreter, touches
memory it should not, or returns with the error indicator in a wrong state."""
import gc

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require
from checks import gen

FACETS = Registry()
ASSUMPTIONS = ["address and undefined behaviour sanitizers see memory errors in the extension modules "
               "(leaks are X01's)", "indices that would allocate more than 10^5 slots are kept out, as "
               "memory is what the user asked for"]

NAMES = ["x", "y", "px", "energy", "pid", "event_number", "local_weight", "global_weight", "weight",
         "nonsense", "", "a" * 300, "é", "x\0y", "station"]


def value():
    return st.one_of(
        st.tuples(st.just("int"), st.one_of(st.integers(-3, 12), st.integers(-2**70, 2**70),
                                            st.sampled_from([2**31, 2**31 - 1, -2**31, 2**63, -2**63,
                                                             2**64, -1]))),
        st.tuples(st.just("float"), st.floats(allow_nan=False, allow_infinity=False)),
        st.tuples(st.just("special"), st.sampled_from(["nan", "inf", "-inf"])),
        st.tuples(st.just("str"), st.sampled_from(NAMES)),
        st.tuples(st.just("none"), st.none()),
        st.tuples(st.just("names"), st.lists(st.sampled_from(NAMES[:8]), max_size=3)),
        st.tuples(st.just("mixed"), st.lists(st.sampled_from(["x", 1, 2.5, None, "é"]), max_size=3)),
        st.tuples(st.just("means"), st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(
            [1.5, 2, "x", None])), max_size=3)),
        st.tuples(st.just("hit"), st.integers(0, 2)),
        st.tuples(st.just("bunch"), st.integers(0, 1)),
        st.tuples(st.just("ctx"), st.integers(0, 1)),
        st.tuples(st.just("bool"), st.booleans()),
        st.tuples(st.just("func"), st.sampled_from(["gt", "raise", "str", "int", "shrink", "grow",
                                                    "clear", "switch", "nested"])),
        st.tuples(st.just("bytes"), st.just(0)))


CALLS = {
    "h.get": 1, "h.set": 2, "h.names": 0, "h.dump": 0, "h.clear": 0, "h.swc": 1, "h.gwc": 0,
    "h.init": 1, "h.eq": 1,
    "b.set_item": 2, "b.get_item": 1, "b.del_item": 1, "b.length": 0, "b.moment": 2, "b.cov": 2,
    "b.cut": 4, "b.tensor": 2, "b.index": 2, "b.len": 0, "b.init": 1, "b.eq": 1,
    "w.get": 3, "w.set": 4, "w.gd": 0, "w.sd": 1, "w.add": 1, "w.sub": 1, "w.mul": 1, "w.div": 1,
    "w.radd": 1, "w.rmul": 1, "w.rsub": 1, "w.rdiv": 1, "w.inv": 0, "w.init": 1, "w.eq": 1,
    "w.iadd": 1, "w.imul": 1, "w.idiv": 1, "new": 0, "drop": 0}

WELL = {  # argument shapes that make the call go through
    "h.get": [["str"]], "h.set": [["str"], ["float", "int", "bool"]], "h.swc": [["ctx"]],
    "b.set_item": [["hit"], ["int"]], "b.get_item": [["int"]], "b.del_item": [["int"]],
    "b.moment": [["names"], ["means"]], "b.cov": [["names"], ["means"]],
    "b.cut": [["str"], ["func"], ["float"], ["bool"]], "b.tensor": [["names"], ["int"]],
    "b.index": [["int"], ["int"]]}


GOOD = {"int": st.integers(-3, 8), "str": st.sampled_from(NAMES[:9]),
        "func": st.sampled_from(["gt", "raise", "str", "shrink", "grow", "clear", "switch", "nested"]),
        "float": st.floats(-1e3, 1e3), "names": st.lists(st.sampled_from(NAMES[:5]), max_size=3),
        "means": st.lists(st.tuples(st.sampled_from(NAMES[:5]), st.just(1.5)), max_size=3),
        "bool": st.booleans(), "hit": st.integers(0, 2), "ctx": st.integers(0, 1)}
GOOD = dict((k, st.tuples(st.just(k), v)) for k, v in GOOD.items())
BAD = value()
WHICH = st.integers(0, 1)


def shapes(name):
    """Strategies for the calls of one name: well formed, arbitrary, and of any number of arguments."""
    out = [st.tuples(*[BAD] * CALLS[name])]
    if name in WELL:
        well = st.tuples(*[st.one_of(*[GOOD[k] for k in kinds]) for kinds in WELL[name]])
        out = [well, well, well] + out
    out.append(st.lists(BAD, max_size=5))
    return st.tuples(st.just(name), WHICH, st.one_of(*out))


def call():
    return st.one_of(*[shapes(n) for n in sorted(CALLS) + ["b.cut", "b.set_item", "b.del_item",
                                                           "b.moment"]])


def build(v, env):
    kind, x = v
    if kind in ("int", "float", "str", "names", "mixed", "bool", "none"):
        return x
    if kind == "special":
        return float(x)
    if kind == "means":
        return dict((a, b) for a, b in x)
    if kind == "hit":
        return env["hits"][x % len(env["hits"])]
    if kind == "bunch":
        return env["bunches"][x % 2]
    if kind == "ctx":
        return env["ctxs"][x % 2]
    if kind == "bytes":
        return b"\xff\x00abc"
    bunch = env["bunches"][0]
    Hitcore, Bunchcore, WeightContext = env["classes"]

    def func(a, b):
        if x == "raise":
            raise ValueError("no")
        if x == "str":
            return "yes"
        if x == "int":
            return 1
        if x == "shrink":
            if len(bunch):
                bunch.del_item(bunch.length() - 1)
        elif x == "clear":
            while bunch.length():
                bunch.del_item(0)
            env["hits"][:] = [Hitcore()]
            gc.collect()
        elif x == "grow":
            if bunch.length() < 40:
                bunch.set_item(Hitcore(), bunch.length())
        elif x == "switch":
            Hitcore.set_weight_context(WeightContext())
            env["ctxs"][0] = WeightContext()
        elif x == "nested":
            bunch.cut_double("y", lambda p, q: True, 0.5, True)
        return True
    return func


@FACETS.add(strategy=lambda: st.lists(call(), min_size=3, max_size=25), quick=1500, thorough=60000,
            rule="sequences of calls on Hitcore, Bunchcore and WeightContext objects with well formed "
                 "and arbitrary arguments (wrong types, counts and ranges, comparators that raise or "
                 "change the bunch), run under address and undefined behaviour sanitizers; "
                 "non-trivial: some calls succeed and some are refused", asan=True, hang=120)
def fuzz(case, note):
    from xboa.core import Hitcore, Bunchcore, WeightContext
    gen.clear_weights()
    env = {"hits": [Hitcore() for _ in range(3)], "bunches": [Bunchcore(), Bunchcore()],
           "ctxs": [WeightContext(), WeightContext()], "classes": (Hitcore, Bunchcore, WeightContext)}
    for i, h in enumerate(env["hits"]):
        env["bunches"][0].set_item(h, i)
        h.set("x", float(i))
    n_ok = n_bad = 0
    for name, which, args in case:
        h = env["hits"][which % len(env["hits"])]
        b = env["bunches"][which % 2]
        w = env["ctxs"][which % 2]
        a = [build(v, env) for v in args]
        if name == "b.set_item" and len(a) > 1 and isinstance(a[1], int) and 10**5 < abs(a[1]) < 2**58:
            continue
        if name in ("b.tensor", "b.index") and a and any(
                isinstance(v, int) and abs(v) > 12 and abs(v) < 2**31 for v in a):
            continue
        if name == "b.index" and len(a) > 1 and all(isinstance(v, int) for v in a[:2]) and \
                a[0] * a[1] > 30:
            continue
        try:
            do_call(name, h, b, w, a, env, which)
            n_ok += 1
        except SystemError as exc:
            raise Violation("%s%r: SystemError %s" % (name, args, exc))
        except RecursionError:
            pass
        except Exception:
            n_bad += 1
    # everything is still usable
    for b in env["bunches"]:
        n = b.length()
        require(len(b) == n and n >= 0, "length")
        for i in range(n):
            item = b.get_item(i)
            if item is not None:
                item.set("x", 1.25)
                require(item.get("x") == 1.25, "hit in bunch")
    for h in env["hits"]:
        h.set("px", 2.5)
        require(h.get("px") == 2.5, "hit")
    for w in env["ctxs"]:
        w.set_weight(0.75, 1, 2, 3)
        require(w.get_weight(1, 2, 3) == 0.75, "context")
    b = h = w = item = None
    env.clear()
    gen.clear_weights()
    note.nontrivial(n_ok >= 2 and n_bad >= 1)


def do_call(name, h, b, w, a, env, which):
    Hitcore, Bunchcore, WeightContext = env["classes"]
    if name == "h.get":
        h.get(*a)
    elif name == "h.set":
        h.set(*a)
    elif name == "h.names":
        require(h.get_variables() and h.set_variables(), "names")
    elif name == "h.dump":
        Hitcore.dump_memory()
    elif name == "h.clear":
        Hitcore.clear_global_weights()
    elif name == "h.swc":
        Hitcore.set_weight_context(*a)
    elif name == "h.gwc":
        env["ctxs"][which % 2] = Hitcore.get_weight_context()
    elif name == "h.init":
        Hitcore(*a)
        h.__init__()
    elif name in ("h.eq", "b.eq", "w.eq"):
        obj = {"h": h, "b": b, "w": w}[name[0]]
        (obj == a[0], obj != a[0], repr(obj), str(obj), hash(str(obj)))
    elif name == "b.set_item":
        b.set_item(*a)
    elif name == "b.get_item":
        b.get_item(*a)
    elif name == "b.del_item":
        b.del_item(*a)
    elif name == "b.length":
        b.length()
    elif name == "b.len":
        len(b)
    elif name == "b.moment":
        b.moment(*a)
    elif name == "b.cov":
        b.covariance_matrix(*a)
    elif name == "b.cut":
        b.cut_double(*a)
    elif name == "b.tensor":
        b.moment_tensor(*a)
    elif name == "b.index":
        b.index_by_power(*a)
    elif name == "b.init":
        Bunchcore(*a)
        b.__init__()
    elif name == "w.get":
        w.get_weight(*a)
    elif name == "w.set":
        w.set_weight(*a)
    elif name == "w.gd":
        w.get_default_weight()
    elif name == "w.sd":
        w.set_default_weight(*a)
    elif name == "w.init":
        WeightContext(*a)
        w.__init__()
    elif name == "w.inv":
        env["ctxs"][which % 2] = ~w
    elif name == "new":
        env["hits"][which % len(env["hits"])] = Hitcore()
        env["ctxs"][which % 2] = WeightContext()
    elif name == "drop":
        env["bunches"][which % 2] = Bunchcore()
    else:
        x = a[0] if a else None
        op = name[2:]
        res = {"add": lambda: w + x, "sub": lambda: w - x, "mul": lambda: w * x, "div": lambda: w / x,
               "radd": lambda: x + w, "rmul": lambda: x * w, "rsub": lambda: x - w,
               "rdiv": lambda: x / w}
        if op in res:
            r = res[op]()
            if type(r) is WeightContext:
                env["ctxs"][which % 2] = r
        else:
            if op == "iadd":
                w += x
            elif op == "imul":
                w *= x
            else:
                w /= x
            if type(w) is WeightContext:
                env["ctxs"][which % 2] = w


def hit_calls():
    """The same through the public python classes."""
    num = st.one_of(st.integers(-5, 5), st.floats(allow_nan=True), st.sampled_from(
        [2**40, "x", None, [1], "inf"]))
    return st.lists(st.one_of(
        st.tuples(st.just("set"), st.sampled_from(gen.DOUBLES + gen.INTS + ["global_weight", "p", "r",
                                                                           "phi", "x'", "bad"]), num),
        st.tuples(st.just("get"), st.sampled_from(["p", "r", "x'", "phi", "pt", "bad", "weight",
                                                   "kinetic_energy", "t'", "ct'"]), st.just(0)),
        st.tuples(st.just("shell"), st.sampled_from(["energy", "px", "pz", "p", "bad", ""]), st.just(0)),
        st.tuples(st.just("bunch"), st.integers(-7, 7), st.sampled_from(["set", "del", "get"])),
        st.tuples(st.just("mean"), st.sampled_from(["x", "p", "bad", "pid", "r"]), st.just(0)),
    ), min_size=2, max_size=20)


@FACETS.add(strategy=hit_calls, quick=400, thorough=20000,
            rule="calls on Hit and Bunch with bad and odd values under sanitizers: a result or an "
                 "ordinary exception, and the objects stay usable; non-trivial: some calls are "
                 "refused", asan=True)
def python_layer(case, note):
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    gen.clear_weights()
    bunch = Bunch()
    for i in range(4):
        bunch.append(Hit.new_from_dict({"x": float(i), "pz": 100., "pid": -13, "mass": 105.65,
                                        "energy": 200.}))
    hit = bunch[0]
    for op in case:
        try:
            if op[0] == "set":
                hit[op[1]] = op[2]
            elif op[0] == "get":
                hit[op[1]]
            elif op[0] == "shell":
                hit.mass_shell_condition(op[1])
            elif op[0] == "bunch":
                if op[2] == "set":
                    bunch[op[1]] = hit
                elif op[2] == "del":
                    del bunch[op[1]]
                else:
                    bunch[op[1]]
            elif op[0] == "mean":
                bunch.mean([op[1]])
        except SystemError as exc:
            raise Violation("%r: SystemError %s" % (op, exc))
        except Exception:
            note.nontrivial()
    for h in bunch:
        h["x"] = 2.5
        require(h["x"] == 2.5, "usable")
    hit["y"] = 1.5
    require(hit["y"] == 1.5, "usable")
