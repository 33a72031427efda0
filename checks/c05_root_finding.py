"""C05: Newton-Raphson returns a root of the function it was given."""
import contextlib
import io
import math

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require
from checks import gen

FACETS = Registry()


@st.composite
def systems(draw):
    d = draw(st.integers(1, 4))
    # diagonally dominant rows: a unique root, well conditioned
    a = [[draw(gen.smooth(-1, 1, 50)) / d for _ in range(d)] for _ in range(d)]
    for i in range(d):
        a[i][i] = draw(st.sampled_from([-1.0, 1.0])) * draw(gen.smooth(2, 8, 50))
    order = draw(st.permutations(range(d)))
    a = [a[i] for i in order]
    return {"a": a, "root": [draw(gen.smooth(-20, 20, 200)) for _ in range(d)],
            "start": [draw(gen.smooth(-20, 20, 200)) for _ in range(d)],
            "delta": [draw(st.sampled_from([0.5, 1.0, -1.0, 2.0])) for _ in range(d)],
            "bend": draw(st.sampled_from([0.0, 0.0, 0.3])),
            "tol": draw(st.sampled_from([1e-2, 1e-4, 1e-6])),
            "many": draw(st.booleans()), "iterations": draw(st.sampled_from([5, 10, 30])), "verbose": draw(st.booleans())}


def values(case, x):
    u = [xi - ri for xi, ri in zip(x, case["root"])]
    return [math.fsum(c * v for c, v in zip(row, u)) + case["bend"] * math.sin(u[i] / 3.0) for i, row in enumerate(case["a"])]


@FACETS.add(strategy=systems, quick=400, thorough=15000,
            rule="for well conditioned linear systems and mildly bent ones of 1 to 4 dimensions, both forms return x "
                 "with every |y(x)| within its tolerance in the iterations allowed (5 or more), or say they stopped "
                 "short; y is only asked for points of the right dimension, at least 2 and at most d+1 lists at a "
                 "time in the list form after the first; start, steps and tolerances are unchanged; "
                 "non-trivial: more than one dimension and not started at the root")
def roots(case, note):
    import xboa.common as Common
    d = len(case["root"])
    asked = []
    tols = [case["tol"] * (1 + i) for i in range(d)]
    start, delta = list(case["start"]), list(case["delta"])

    def one(x):
        asked.append(list(x))
        return values(case, x)

    def several(xs):
        require(1 <= len(xs) <= d + 1, "asked for", len(xs), "points")
        return [one(x) for x in xs]

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        func = Common.nd_newton_raphson2 if case["many"] else Common.nd_newton_raphson1
        got = func(several if case["many"] else one, tols, start, delta, case["iterations"], verbose=case["verbose"])
    require(start == case["start"] and delta == case["delta"], "start values changed", start, delta)
    require(len(tols) == d and all(t == case["tol"] * (1 + i) for i, t in enumerate(tols)), "tolerances changed")
    require(all(len(x) == d for x in asked), "points of another dimension")
    require(len(got) == d, "answer", got)
    y = values(case, got)
    if case["bend"] and "without convergence" in out.getvalue():
        note.label("stopped short")
        return
    for i in range(d):
        require(abs(y[i]) <= tols[i] * (1 + 1e-9) + 1e-9, "y", i, "=", y[i], "at", got, "root", case["root"])
    require(len(asked) <= (d + 2) * case["iterations"], "calls", len(asked))
    note.label("%dD" % d, "list" if case["many"] else "single", "bent" if case["bend"] else "linear")
    note.nontrivial(d > 1 and start != case["root"])


@FACETS.add(strategy=lambda: st.tuples(systems(), st.integers(0, 3)), quick=150, thorough=3000,
            rule="a singular system (a row repeated or zero) is reported and returns a point of the right dimension "
                 "without raising; a function that fails raises; non-trivial: d > 1")
def failing(case, note):
    import xboa.common as Common
    case, kind = case
    d = len(case["root"])
    flat = dict(case, bend=0.0)
    flat["a"] = [[0.0] * d] + case["a"][1:] if kind % 2 else case["a"][:-1] + [list(case["a"][0])] if d > 1 else [[0.0]]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = Common.nd_newton_raphson1(lambda x: values(flat, x), [case["tol"]] * d, list(case["start"]), list(case["delta"]), verbose=False)
    require(len(got) == d and all(isinstance(float(g), float) for g in got), "answer", got)

    def broken(x):
        raise KeyError("broken")
    for call in (lambda: Common.nd_newton_raphson1(broken, [1.0] * d, [0.0] * d, [1.0] * d, verbose=False),
                 lambda: Common.nd_newton_raphson2(broken, [1.0] * d, [0.0] * d, [1.0] * d, verbose=False),
                 lambda: Common.nd_newton_raphson1(lambda x: None, [1.0] * d, [0.0] * d, [1.0] * d, verbose=False)):
        try:
            with contextlib.redirect_stdout(out):
                got = call()
            require(False, "no error, returned", got)
        except Violation:
            raise
        except Exception:
            pass
    note.nontrivial(d > 1)
