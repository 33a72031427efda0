"""A02: smoothing gives the weighted mean, the cut or the fit it is defined as."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@st.composite
def gaussians(draw):
    n = draw(st.integers(1, 30))
    return {"signal": [draw(gen.smooth(-100, 100, 10000)) for _ in range(n)],
            "other": [draw(gen.smooth(-100, 100, 10000)) for _ in range(n)],
            "sigma": draw(st.one_of(gen.smooth(0.2, 8, 200), st.sampled_from([1.0, 2.0]))),
            "range": draw(st.integers(0, 12)), "adjust": draw(st.booleans()),
            "a": draw(gen.smooth(-4, 4, 64)), "kind": draw(st.sampled_from(["list", "tuple", "array"]))}


@FACETS.add(strategy=gaussians, quick=500, thorough=25000,
            rule="GaussianSmoothing: each value is the sum of the values within range, weighted by a Gaussian of "
                 "their distance, over the weights available or over all weights; constants stay (adjusted); "
                 "linear; mirror image of mirrored data; signal unchanged; non-trivial: an inner and an edge point")
def gaussian(case, note):
    import numpy
    from xboa.algorithms.smoothing import GaussianSmoothing
    signal, r, sigma = case["signal"], case["range"], case["sigma"]
    n = len(signal)
    smoothing = GaussianSmoothing(sigma, r, case["adjust"])
    data = {"list": list, "tuple": tuple, "array": numpy.array}[case["kind"]](signal)
    got = smoothing.smooth(data)
    require(len(got) == n, "%d values of %d" % (len(got), n))
    require(list(data) == signal, "signal changed")
    weight = [math.exp(-0.5 * (k / sigma) ** 2) for k in range(r + 1)]
    everything = math.fsum(weight[abs(k)] for k in range(-r, r + 1))
    for i in range(n):
        near = [j for j in range(n) if abs(i - j) <= r]
        norm = math.fsum(weight[abs(i - j)] for j in near) if case["adjust"] else everything
        want = math.fsum(weight[abs(i - j)] * signal[j] for j in near) / norm
        require_close(got[i], want, "smoothed value %d" % i, 1e-9, 1e-9)
    mirrored = smoothing.smooth(signal[::-1])
    mixed = smoothing.smooth([case["a"] * x + y for x, y in zip(signal, case["other"])])
    other = smoothing.smooth(case["other"])
    for i in range(n):
        require_close(mirrored[n - 1 - i], got[i], "mirrored value", 1e-9, 1e-9)
        require_close(mixed[i], case["a"] * got[i] + other[i], "linear", 1e-9, 1e-8)
    if case["adjust"]:
        for v in smoothing.smooth([signal[0]] * n):
            require_close(v, signal[0], "constant", 1e-12, 1e-12)
    note.label("adjusted" if case["adjust"] else "fixed", case["kind"])
    note.nontrivial(0 < r < n / 2.0)


@st.composite
def tables(draw):
    n = draw(st.integers(0, 30))
    columns = draw(st.integers(1, 4))
    signal = [float(v) for v in draw(st.lists(st.one_of(st.integers(-4, 4), st.integers(-40, 40)), min_size=n, max_size=n))]
    table = [[float(draw(st.integers(-9, 9))) for _ in range(n)] for _ in range(columns)]
    target = draw(st.integers(0, columns - 1))
    table[target] = signal
    return {"table": table, "target": target, "step": draw(st.integers(1, 12)),
            "cut": draw(st.sampled_from([0.3, 1.7, 5.3, 11.3, 1000.0]))}


@FACETS.add(strategy=tables, quick=600, thorough=30000,
            rule="CutSmoothing: keeps the rows whose value in the target column is within the cut of the mean of "
                 "its step (for what is left at the end, of the last step values), the same rows in all columns in "
                 "order; smooth is this for one column; unequal columns are refused; table unchanged; "
                 "non-trivial: rows cut and rows left over after whole steps")
def cut(case, note):
    from xboa.algorithms.smoothing import CutSmoothing
    table, target, step = case["table"], case["target"], case["step"]
    signal = table[target]
    n = len(signal)
    keep = []
    for i in range(n):
        block = i // step * step
        near = signal[block:block + step] if block + step <= n else signal[max(n - step, 0):]
        off = abs(signal[i] - math.fsum(near) / len(near)) - case["cut"]
        if abs(off) < 1e-9:
            return
        if off < 0:
            keep.append(i)
    copy = [list(c) for c in table]
    smoothing = CutSmoothing(case["cut"], step)
    got = smoothing.smooth_table(table, target)
    require(table == copy, "table changed")
    require([list(c) for c in got] == [[c[i] for i in keep] for c in table],
            "table %r, want rows %r" % (got, keep))
    require(list(smoothing.smooth(signal)) == [signal[i] for i in keep], "smooth differs from smooth_table")
    require(table == copy, "signal changed")
    if len(table) > 1:
        bad = [list(c) for c in table]
        bad[(target + 1) % len(bad)].append(1.0)
        try:
            smoothing.smooth_table(bad, target)
        except IndexError:
            pass
        else:
            require(False, "columns of unequal length accepted")
    note.label("left over" if n % step else "whole steps", "cut" if len(keep) < n else "all")
    note.nontrivial(len(keep) < n and n % step)


@FACETS.add(strategy=lambda: st.fixed_dictionaries({
                "signal": st.lists(gen.smooth(-100, 100, 2000), min_size=4, max_size=30),
                "degree": st.integers(0, 2)}), quick=120, thorough=3000,
            rule="FitSmoothing with a polynomial of degree 0 to 2: the values of the least squares polynomial; "
                 "signal unchanged; non-trivial: degree above 0")
def fit(case, note):
    import numpy
    import ROOT
    from xboa.algorithms.smoothing import FitSmoothing
    signal, n = list(case["signal"]), len(case["signal"])
    got = FitSmoothing(ROOT.TF1("a02_fit", "pol%d" % case["degree"], 0, n)).smooth(signal)
    require(signal == case["signal"] and len(got) == n, "signal changed or %d values" % len(got))
    x = numpy.arange(n) - (n - 1) / 2.0
    want = numpy.polyval(numpy.polyfit(x, numpy.array(signal), case["degree"]), x)
    for i in range(n):
        require_close(got[i], float(want[i]), "fitted value %d" % i, 1e-6, 1e-5)
    note.nontrivial(case["degree"] > 0)
