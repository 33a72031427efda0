"""C07: sorting lists together, substituting in files, comparing samples, requiring modules."""
import math
import os
import sys

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@FACETS.add(strategy=lambda: st.integers(1, 4).flatmap(lambda k: st.lists(
                st.tuples(*([st.integers(-3, 3)] + [st.one_of(st.integers(0, 99), st.text(max_size=2), st.none())] * (k - 1))), max_size=15)),
            quick=300, thorough=8000,
            rule="multisort keeps rows together, orders them by the first list, leaves rows that compare equal in "
                 "their order whatever else they hold, and changes the lists in place; non-trivial: equal first "
                 "items with different rows")
def sorting(case, note):
    import xboa.common as Common
    rows = [tuple(r) for r in case]
    k = len(rows[0]) if rows else 2
    lists = [[r[i] for r in rows] for i in range(k)]
    keep = list(lists)
    got = Common.multisort(lists)
    want = sorted(rows, key=lambda r: r[0])
    require([len(x) for x in got] == [len(rows)] * k, "lengths", got)
    require([tuple(x[i] for x in got) for i in range(len(rows))] == want, "rows", got, "expected", want)
    require(all(a is b for a, b in zip(lists, keep)) and lists == [[r[i] for r in want] for i in range(k)], "not in place")
    firsts = [r[0] for r in rows]
    note.nontrivial(any(firsts.count(f) > 1 for f in firsts) and len(set(rows)) > 1 and rows != want)


WORDS = ["energy", "momentum", "__x__", "[y]", "a.b", "$z", "\\n", "1.5"]


@FACETS.add(strategy=lambda: st.tuples(st.lists(st.lists(st.one_of(st.sampled_from(WORDS), st.text("pqr \t", max_size=4)), max_size=6), max_size=6),
                                       st.lists(st.tuples(st.sampled_from(WORDS), st.one_of(st.integers(-99, 99), st.floats(-10, 10), st.text("PQRS#\\", max_size=4))),
                                                max_size=4, unique_by=lambda t: t[0]), st.booleans()),
            quick=200, thorough=5000,
            rule="substitute writes the input file with every occurrence of every key replaced by its value and "
                 "nothing else changed; keys are literal text; the input file is unchanged; non-trivial: a key "
                 "occurs twice")
def substituting(case, note):
    import xboa.common as Common
    lines, changes, final = case
    # keys whose text appears in a value of another would make the outcome depend on the order
    tokens = [[w for w in line] for line in lines]
    text = "\n".join("".join(line) for line in tokens) + ("\n" if final else "")
    swap = {k: v for k, v in changes}
    if any(k in str(v) for k in swap for v in swap.values()):
        return
    with open("in.txt", "w", newline="") as f:
        f.write(text)
    with open("out.txt", "w") as f:
        f.write("old contents which are longer than the new ones" * 20)
    Common.substitute("in.txt", "out.txt", swap)
    want, i = "", 0
    while i < len(text):
        for k in swap:
            if text.startswith(k, i):
                want += str(swap[k])
                i += len(k)
                break
        else:
            want += text[i]
            i += 1
    # a replacement may join with its surroundings to spell another key: order would matter
    if any(k in want for k in swap):
        return
    got = open("out.txt", newline="").read()
    require(got == want, "wrote", repr(got), "expected", repr(want))
    require(open("in.txt", newline="").read() == text, "input file changed")
    note.nontrivial(any(text.count(k) > 1 for k in swap))


def ks(a, b):
    pts = sorted(set(a) | set(b))
    d = max(abs(sum(x <= p for x in a) / len(a) - sum(x <= p for x in b) / len(b)) for p in pts)
    z = d * math.sqrt(len(a) * len(b) / (len(a) + len(b)))
    if z < 0.2:
        return 1.0
    if z < 1.0:   # the form that converges fast for small z
        return 1 - math.sqrt(2 * math.pi) / z * math.fsum(math.exp(-(2 * k - 1) ** 2 * math.pi ** 2 / (8 * z * z)) for k in range(1, 20))
    return 2 * math.fsum((-1) ** (k - 1) * math.exp(-2 * k * k * z * z) for k in range(1, 20))


@FACETS.add(strategy=lambda: st.tuples(st.lists(gen.smooth(-5, 5, 30), min_size=3, max_size=40), st.lists(gen.smooth(-4, 7, 33), min_size=3, max_size=40)),
            quick=200, thorough=5000,
            rule="kolmogorov_smirnov_test of unsorted samples with ties is the Kolmogorov probability of the largest "
                 "difference of their distributions, the same with the samples swapped; samples unchanged; "
                 "non-trivial: between 0.001 and 0.999")
def kolmogorov(case, note):
    import xboa.common as Common
    a, b = list(case[0]), list(case[1])
    got = Common.kolmogorov_smirnov_test(a, b)
    require(a == case[0] and b == case[1], "samples changed")
    require_close(got, ks(a, b), "probability", 1e-4, 1e-6)
    require_close(Common.kolmogorov_smirnov_test(b, a), got, "swapped", 1e-9, 1e-12)
    require_close(Common.kolmogorov_smirnov_test(a, sorted(a)), 1.0, "with itself", 1e-9)
    note.nontrivial(0.001 < got < 0.999)


GOOD = ["sys", "os", "xboa.common", "math"]
BAD = ["no_such_module_xyz", "xboa.nothing", "mathx"]


@FACETS.add(strategy=lambda: st.one_of(st.lists(st.sampled_from(GOOD + BAD), max_size=4), st.sampled_from(GOOD + BAD)),
            quick=100, thorough=500,
            rule="require_modules passes exactly when all modules named are imported, and otherwise raises ImportError "
                 "naming each missing one; non-trivial: a list with both")
def requiring(case, note):
    import xboa.common
    from xboa.common import utils
    names = [case] if isinstance(case, str) else list(case)
    missing = [n for n in names if n in BAD]
    try:
        require(utils.require_modules(case) is None, "returned something")
        require(not missing, "passed without", missing)
    except ImportError as exc:
        require(missing, "refused", case)
        require(all(m in str(exc) for m in missing), "message", exc)
    note.nontrivial(bool(missing) and len(missing) < len(names))


@FACETS.add(exhaustive=True, quick=0, thorough=0, examples=[["Bunch", "bunch"], ["Hit", "hit"], ["Common", "common"]],
            rule="the deprecated modules warn and give the same objects as the modules that replaced them; "
                 "non-trivial: all")
def deprecated(case, note):
    import contextlib
    import importlib
    import io
    old, new = case
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        old_module = importlib.import_module("xboa." + old)
    new_module = importlib.import_module("xboa." + new)
    require("xboa." + new in err.getvalue(), "no warning")
    for name in {"Bunch": ["Bunch"], "Hit": ["Hit", "BadEventError"], "Common": ["units", "constants", "histogram"]}[old]:
        require(getattr(old_module, name) is getattr(new_module, name), "%s.%s is another" % (old, name))
    note.nontrivial(True)
