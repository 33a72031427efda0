"""A01: the peak finders find the peaks their definitions describe."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@st.composite
def signals(draw, least=1):
    """Coarse values make plateaus and ties common; sines and sawteeth make many peaks."""
    kind = draw(st.sampled_from(["coarse", "fine", "wave", "ramp"]))
    n = draw(st.integers(least, 40))
    if kind == "coarse":
        data = [float(v) for v in draw(st.lists(st.integers(-2, 3), min_size=n, max_size=n))]
    elif kind == "fine":
        data = [draw(gen.smooth(-100, 100, 10000)) for _ in range(n)]
    elif kind == "wave":
        f, p = draw(gen.smooth(0.01, 0.5, 200)), draw(gen.smooth(0, 6.3, 100))
        data = [math.cos(2 * math.pi * f * i + p) * (1 + 0.1 * i) for i in range(n)]
    else:
        k = draw(st.integers(2, 9))
        data = [float(i % k) for i in range(n)]
    return data


@st.composite
def window_cases(draw):
    return {"data": draw(signals()), "window": draw(st.integers(1, 15)), "step": draw(st.integers(1, 6)),
            "threshold": draw(st.sampled_from([0.0, 0.5, 1.0, 1.5, 3.0, 10.0])),
            "scale": draw(st.sampled_from([0.5, 2.0, 8.0]))}


def window_model(data, window, step):
    window = min(window, len(data))
    last = len(data) - window
    found = []
    for i in range(0, last + 1, step):
        part = data[i:i + window]
        k = max(range(window), key=lambda j: (part[j], -j))
        if (k == 0 and i != 0) or (k == window - 1 and i != last):
            continue
        if i + k not in found:
            found.append(i + k)
    return found


@FACETS.add(strategy=window_cases, quick=600, thorough=30000,
            rule="WindowPeakFinder: without a threshold, the peaks are the highest points of windows where these "
                 "are not at an inner window boundary, each once, in order; a threshold only removes peaks, more "
                 "of them the higher it is; a factor on the data changes nothing; data unchanged; "
                 "non-trivial: 2 peaks or more")
def window(case, note):
    from xboa.algorithms.peak_finder import WindowPeakFinder
    data, keep = case["data"], list(case["data"])
    want = window_model(data, case["window"], case["step"])
    finder = WindowPeakFinder(case["window"], 0.0, case["step"])
    require(finder.find_peaks(data) == want, "found %r, want %r" % (finder.find_peaks(data), want))
    t = case["threshold"]
    got = WindowPeakFinder(case["window"], t, case["step"]).find_peaks(data)
    if t < 1:
        require(got == want, "threshold %r: %r, want %r" % (t, got, want))
    require(set(got) <= set(want), "threshold %r adds peaks %r to %r" % (t, got, want))
    higher = WindowPeakFinder(case["window"], max(2 * t, 2.0), case["step"]).find_peaks(data)
    require(set(higher) <= set(got), "a higher threshold adds peaks: %r, %r" % (got, higher))
    scaled = WindowPeakFinder(case["window"], t, case["step"]).find_peaks([case["scale"] * v for v in data])
    require(scaled == got, "scaled data: %r, want %r" % (scaled, got))
    require(data == keep, "data changed")
    note.label("cut by threshold" if len(got) < len(want) else "all",
               "step>1" if case["step"] > 1 else "step 1", "short" if len(data) < case["window"] else "long")
    note.nontrivial(len(want) > 1)


@FACETS.add(strategy=lambda: st.fixed_dictionaries({"data": signals(), "shift": st.sampled_from([-4.0, 0.5, 16.0])}),
            quick=400, thorough=20000,
            rule="UphillDownhillPeakFinder.find_peaks: exactly the points higher than both neighbours, in order, "
                 "whatever the offset of the data; data unchanged; non-trivial: a peak")
def uphill(case, note):
    from xboa.algorithms.peak_finder import UphillDownhillPeakFinder
    data, keep = case["data"], list(case["data"])
    want = [i for i in range(1, len(data) - 1) if data[i] - data[i - 1] > 0 and data[i + 1] - data[i] < 0]
    finder = UphillDownhillPeakFinder()
    require(finder.find_peaks(data) == want, "found %r, want %r" % (finder.find_peaks(data), want))
    coarse = [float(round(v)) for v in data]
    moved = [v + case["shift"] for v in coarse]
    require(finder.find_peaks(coarse) == finder.find_peaks(moved), "an offset changes the peaks")
    require(data == keep, "data changed")
    note.label("%d peaks" % min(len(want), 4))
    note.nontrivial(bool(want))


@st.composite
def derivative_cases(draw):
    n = draw(st.integers(8, 30))
    data = [draw(gen.smooth(-100, 100, 10000)) for _ in range(n)]
    peaks = draw(st.lists(st.integers(0, n - 2), min_size=1, max_size=3))
    return {"data": data, "peaks": peaks, "delta": draw(st.integers(2, 12))}


@FACETS.add(strategy=derivative_cases, quick=150, thorough=4000,
            rule="find_peak_errors_derivative: for each peak, in order, the index at which the straight line fitted "
                 "to index against derivative, within delta of the peak, has derivative 0; "
                 "non-trivial: 2 peaks")
def derivative(case, note):
    from xboa.algorithms.peak_finder import UphillDownhillPeakFinder
    data, keep = case["data"], list(case["data"])
    got = UphillDownhillPeakFinder().find_peak_errors_derivative(data, case["peaks"], case["delta"])
    require(len(got) == len(case["peaks"]), "%d results" % len(got))
    slope = [b - a for a, b in zip(data, data[1:])]
    used = 0
    for peak, (x, error) in zip(case["peaks"], got):
        at = range(max(0, peak - case["delta"]), min(len(slope), peak + case["delta"] + 1))
        ys = [slope[i] for i in at]
        my, mx = math.fsum(ys) / len(ys), math.fsum(at) / len(at)
        var = math.fsum((y - my) ** 2 for y in ys)
        if len(ys) < 3 or var < 1.0:
            continue
        m = math.fsum((y - my) * (x_ - mx) for y, x_ in zip(ys, at)) / var
        require_close(x, mx - m * my, "peak by derivative", 1e-3, 1e-3)
        require(error >= 0, "error %r" % error)
        used += 1
    require(data == keep, "data changed")
    note.nontrivial(used > 1)


@st.composite
def parabolas(draw):
    n = draw(st.integers(12, 60))
    peaks = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3))
    return {"n": n, "centre": draw(gen.smooth(0, 60, 600)), "top": draw(gen.smooth(-50, 50, 500)),
            "curve": draw(gen.smooth(0.02, 2, 200)) * draw(st.sampled_from([1, -1])), "peaks": peaks,
            "seed": draw(st.integers(3, 6)), "max": draw(st.integers(7, 40))}


@FACETS.add(strategy=parabolas, quick=150, thorough=4000,
            rule="RefinePeakFinder on an exact parabola: for each estimate whose window reaches the vertex the "
                 "vertex, its height, the estimate it came from and a symmetric covariance; none for estimates "
                 "further away than the window can grow; find_peaks gives the indices; non-trivial: a peak found "
                 "that was not at the estimate")
def refine(case, note):
    from xboa.algorithms.peak_finder import RefinePeakFinder
    n, c = case["n"], case["centre"]
    data = [case["top"] - case["curve"] * (i - c) ** 2 for i in range(n)]
    keep, estimates = list(data), list(case["peaks"])
    finder = RefinePeakFinder(estimates, case["seed"], case["max"], False)
    got = finder.find_peak_errors(data)
    require(data == keep and estimates == case["peaks"], "input changed")
    far = max(case["seed"], case["max"] - 1)
    expected = []
    for peak in estimates:
        if abs(peak - c) > far + 0.01 or c < -0.01 or c > n + 0.01:
            continue
        expected.append(peak)
    left = [g["x_in"] for g in got]
    it = iter(expected)
    require(all(any(p == q for q in it) for p in left), "peaks from %r of %r" % (left, expected))
    sure = [p for p in estimates if abs(p - c) <= case["seed"] - 0.01 and 0.01 < c < n - 0.01
            and min(p + case["seed"], n - 1) - max(p - case["seed"], 0) >= 3]
    require(all(left.count(p) >= 1 for p in sure), "estimates %r gave %r" % (sure, got))
    for g in got:
        require_close(g["x"], c, "vertex", 0, 0.02 + 0.002 / abs(case["curve"]))
        require_close(g["y"], case["top"], "height", 0, 2e-2 * (1 + abs(case["curve"]) + abs(case["top"])))
        cov = g["cov(x,y)"]
        require_close(cov[0][1], cov[1][0], "covariance", 1e-6, 1e-9)
    index = RefinePeakFinder(estimates, case["seed"], case["max"], False).find_peaks(data)
    require(index == [int(g["x"]) for g in got], "find_peaks %r, errors %r" % (index, got))
    note.label("%d of %d" % (len(got), len(estimates)), "seed %d" % case["seed"])
    note.nontrivial(any(g["x_in"] != round(c) for g in got))


@st.composite
def separate(draw):
    peaks = draw(st.lists(st.integers(4, 90), min_size=2, max_size=4, unique=True))
    bumps = [[draw(gen.smooth(0, 95, 950)), draw(gen.smooth(1, 20, 100)), draw(gen.smooth(2, 8, 60))] for _ in range(4)]
    noise = [draw(st.integers(-8, 8)) / 64.0 for _ in range(96)]
    return {"peaks": peaks, "bumps": bumps, "noise": noise, "seed": draw(st.integers(2, 4)),
            "max": draw(st.integers(8, 30))}


@FACETS.add(strategy=separate, quick=80, thorough=2500,
            rule="RefinePeakFinder on noisy bumps: what it finds for an estimate does not depend on the other "
                 "estimates; stays within the range it was given; same answer again; non-trivial: two peaks")
def refine_separate(case, note):
    from xboa.algorithms.peak_finder import RefinePeakFinder
    data = [case["noise"][i] + (i * i % 7) / 16.0 - 0.002 * (i - 50) ** 2 + math.fsum(h * math.exp(-0.5 * ((i - c) / w) ** 2) for c, h, w in case["bumps"])
            for i in range(96)]

    def run(peaks):
        return RefinePeakFinder(peaks, case["seed"], case["max"], False).find_peak_errors(data)

    got = run(case["peaks"])
    alone = [g for p in case["peaks"] for g in run([p])]
    require([g["x_in"] for g in got] == [g["x_in"] for g in alone], "together %r, alone %r" % (got, alone))
    for a, b in zip(got, alone):
        require_close(a["x"], b["x"], "x", 1e-3, 1e-2)
        require(abs(a["x"] - a["x_in"]) <= case["max"] + 1e-6, "left its range: %r" % a)
        require(0 <= a["x"] <= len(data), "outside the data: %r" % a)
    note.nontrivial(len(got) > 1)


@st.composite
def noisy_bump(draw):
    return {"c": draw(gen.smooth(8, 52, 440)), "w": draw(gen.smooth(3, 12, 90)), "h": draw(gen.smooth(3, 20, 170)),
            "noise": [draw(st.integers(-16, 16)) / 64.0 for _ in range(60)], "off": draw(st.integers(-2, 2)),
            "seed": draw(st.integers(2, 4)), "max": draw(st.integers(6, 40))}


@FACETS.add(strategy=noisy_bump, quick=150, thorough=4000,
            rule="RefinePeakFinder on one noisy bump is the vertex of numpy's least squares quadratic over the widest "
                 "range whose residuals pass the documented quality test, with the covariance carried over from the fit; "
                 "fits whose quality or curvature is in doubt are left out; non-trivial: the range grew")
def refine_reference(case, note):
    import numpy
    from xboa.algorithms.peak_finder import RefinePeakFinder
    data = [case["h"] * math.exp(-0.5 * ((i - case["c"]) / case["w"]) ** 2) + case["noise"][i] for i in range(60)]
    peak, bite, most = int(case["c"]) + case["off"], case["seed"], min(len(data), case["max"])

    def spread(values):
        return (sum(v * v for v in values) / len(values) - (sum(values) / len(values)) ** 2)

    def fit(delta):
        low, high = max(peak - delta, 0), min(peak + delta + 1, len(data))
        x, y = numpy.arange(low - peak, high - peak, dtype=float), numpy.array(data[low:high])
        a = numpy.stack([x ** 0, x, x * x], 1)
        p = numpy.linalg.lstsq(a, y, rcond=None)[0]
        rest = y - a @ p
        near = list(y[max(peak - low - bite, 0):peak - low + bite])
        sure = len(y) > 3 and spread(near) > 1e-3 and spread(list(rest)) > 1e-3
        quality = (spread(list(rest)) ** 0.5 / spread(near) ** 0.5 - 1.0) * bite ** 0.5 if sure else None
        return quality, p, numpy.linalg.inv(a.T @ a) * (rest @ rest) / (len(y) - 3) if sure else None

    quality, delta = 0.0, bite
    while quality is not None and quality < 1.0 and delta < most:
        delta *= 2
        quality = fit(delta)[0]
        if quality is not None and abs(quality - 1.0) < 0.02:
            quality = None
    delta //= 2
    p, cov = fit(delta)[1:]
    if quality is None or cov is None or abs(p[2]) < 4.0 * cov[2, 2] ** 0.5:
        note.label("in doubt")
        return
    x, y = -p[1] / 2.0 / p[2] + peak, p[0] - p[1] ** 2 / 4.0 / p[2]
    if min(abs(abs(x - peak) - delta), abs(x), abs(x - len(data))) < 0.01:
        note.label("in doubt")
        return
    keep = list(data)
    got = RefinePeakFinder([peak], bite, case["max"], False).find_peak_errors(data)
    require(data == keep, "data changed")
    if abs(x - peak) > delta or x < 0 or x > len(data):
        require(got == [], "peak %r outside its range kept: %r" % (x, got))
        note.label("outside")
        return
    require(len(got) == 1 and got[0]["x_in"] == peak, "peaks %r, want one near %r" % (got, x))
    require_close(got[0]["x"], x, "x", 1e-3, 1e-2)
    require_close(got[0]["y"], y, "y", 1e-3, 1e-2)
    jac = numpy.array([[0.0, -0.5 / p[2], p[1] / 2.0 / p[2] ** 2], [1.0, -p[1] / 2.0 / p[2], p[1] ** 2 / 4.0 / p[2] ** 2]])
    want, size = jac @ cov @ jac.T, None
    for i in range(2):
        for j in range(2):
            size = (want[i, i] * want[j, j]) ** 0.5
            require_close(got[0]["cov(x,y)"][i][j], want[i, j], "covariance %d %d" % (i, j), 0, 0.05 * size)
    note.label("range %d" % delta)
    note.nontrivial(delta > bite)
