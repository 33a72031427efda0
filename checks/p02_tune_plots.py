"""P02: plots of the tune finders show the data and spectrum they worked with, and fits stay in their window."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen
from checks.a03_tunes import ellipses, points
from checks.p01_plots import close_pair, limits, one_axes, pyplot, root, root_points, same_points

FACETS = Registry()


@st.composite
def turns(draw):
    return {"e": draw(ellipses()), "tune": draw(gen.smooth(0.04, 0.96, 920)), "n": draw(st.integers(8, 40)),
            "scale": draw(st.sampled_from([1.0, 0.5, 2.0])), "canvas": draw(st.booleans()), "root": draw(st.booleans()),
            "cholesky": draw(st.booleans()), "axes": draw(st.sampled_from([("x", "px"), ("y", "py"), ("t", "energy")]))}


@FACETS.add(strategy=turns, quick=40, thorough=800,
            rule="plots of the DPhiTuneFinder in ROOT and matplotlib show u against up, with the axes that were tracked, or "
                 "the points on the circle that it found, scaled, on the canvas or figure given or a new "
                 "one, and change nothing; non-trivial: scaled")
def dphi_plots(case, note):
    import xboa.common as Common
    from xboa.algorithms.tune import DPhiTuneFinder
    u, up = points(case["e"], case["tune"], case["n"])
    if max(u) - min(u) < 1e-6 or max(up) - min(up) < 1e-6:
        return
    finder = DPhiTuneFinder(list(u), list(up))
    finder.axis1, finder.axis2 = case["axes"]
    tune = finder.get_tune()
    circle = [(p[0] * case["scale"], p[1] * case["scale"]) for p in finder.point_circles]
    require(len(circle) == len(u), "points on the circle")
    want = circle if case["cholesky"] else list(zip(u, up))
    if case["root"]:
        root()
        canvas = Common.make_root_canvas("given") if case["canvas"] and case["cholesky"] else None
        if case["cholesky"]:
            got = finder.plot_cholesky_space_root(canvas, case["scale"])
        else:
            got = finder.plot_phase_space_root()
        require(canvas is None or got[0] == canvas, "not the canvas given")
        same_points(root_points(got[2]), want, "graph", ordered=False)
        drawn = list(got[0].GetListOfPrimitives())
        require(got[2] in drawn, "graph not on the canvas")
        require(canvas is not None or got[1] in drawn, "no axes on the canvas")
        close_pair((got[1].GetXaxis().GetXmin(), got[1].GetXaxis().GetXmax()), limits([p[0] for p in want]), "x range")
        close_pair((got[1].GetYaxis().GetXmin(), got[1].GetYaxis().GetXmax()), limits([p[1] for p in want]), "y range")
        if not case["cholesky"]:
            require((got[1].GetXaxis().GetTitle(), got[1].GetYaxis().GetTitle()) == tuple(case["axes"]), "titles of axes")
        Common.clear_root()
    else:
        plt = pyplot()
        fig = 55 if case["canvas"] else None
        if case["cholesky"]:
            index = finder.plot_cholesky_space_matplotlib(fig, case["scale"])
        else:
            index = finder.plot_phase_space_matplotlib("some u", "some up", fig)
        require(fig is None or index == fig, "figure", index)
        axes = one_axes(plt, index)
        artist, = axes.collections
        same_points(artist.get_offsets(), want, "scatter", ordered=False)
        if not case["cholesky"]:
            require((axes.get_xlabel(), axes.get_ylabel()) == ("some u", "some up"), "labels")
        plt.close("all")
    require((finder.u, finder.up) == (u, up), "data changed")
    require_close(finder.get_tune(), tune, "tune after the plot", 1e-12)
    note.label("ROOT" if case["root"] else "matplotlib", "circle" if case["cholesky"] else "phase space")
    note.nontrivial(case["cholesky"] and case["scale"] != 1)


def spectrum(u):
    """magnitude of the Fourier sums, as written"""
    n = len(u)
    return [(k / float(n), abs(sum(v * complex(math.cos(2 * math.pi * k * i / n), -math.sin(2 * math.pi * k * i / n))
                                   for i, v in enumerate(u)))) for k in range(n // 2 + 1)]


@st.composite
def signals(draw):
    return {"e": draw(ellipses()), "tune": draw(gen.smooth(0.06, 0.44, 760)), "n": draw(st.integers(30, 90)), "title": draw(st.sampled_from(["fft", "a b"])),
            "kind": draw(st.sampled_from(["signal", "phase", "fft", "fft", "line", "line", "gauss"])), "ask": draw(st.booleans()),
            "ymin": draw(st.one_of(st.none(), gen.smooth(0.01, 1, 20))), "ymax": draw(st.one_of(st.none(), gen.smooth(2, 1000, 20))),
            "low": draw(st.integers(1, 20)), "width": draw(st.integers(4, 15)),
            "order": draw(st.integers(1, 2))}


@FACETS.add(strategy=signals, quick=60, thorough=1200, scale=2,
            rule="plots of the FFTTuneFinder show the signal in order, u against up, or the magnitude of the Fourier sums by "
                 "frequency (with the refined points, that are finer sums) on a log scale in the limits asked; a fit with a "
                 "polynomial is the least squares fit to the points in its window only, the default fit is a Gaussian in the "
                 "window; non-trivial: fits")
def fft_plots(case, note):
    import numpy
    import xboa.common as Common
    from xboa.algorithms.tune import FFTTuneFinder
    ROOT = root()
    ROOT.gErrorIgnoreLevel = ROOT.kFatal
    u, up = points(case["e"], case["tune"], case["n"])
    if max(u) - min(u) < 1e-6 or max(up) - min(up) < 1e-6:
        return
    finder = FFTTuneFinder(list(u), list(up))
    kind, title = case["kind"], case["title"]
    if case["ask"] or kind not in ("signal", "phase"):
        if case["ask"]:
            finder.get_tune()
        if len(u) % 2 == 0:  # the last is left out, as the finder says
            u, up = u[:-1], up[:-1]
    fit = None
    if kind == "signal":
        canvas, hist, graph = finder.plot_signal(title)
        same_points(root_points(graph), list(enumerate(u)), "signal")
    elif kind == "phase":
        canvas, hist, graph = finder.plot_phase_space(title)
        same_points(root_points(graph), list(zip(u, up)), "phase space", ordered=False)
    else:
        if not case["ask"]:
            require(finder.k_mag_x is None, "spectrum before it was asked for")
        if kind == "fft":
            canvas, hist, graph = finder.plot_fft(title, case["ymin"], case["ymax"])
        else:
            finder.get_tune()
            low = case["low"] % (len(finder.k_mag_x) - 8)
            high = min(low + case["width"], len(finder.k_mag_x) - 1)
            x, y = list(finder.k_mag_x), list(finder.k_mag_y)
            peak = max(range(low, high + 1), key=lambda i: y[i])
            if kind == "line":
                # the edges between points, so that no point is on an edge
                edges = 0.5 * (x[low] + x[max(low - 1, 0)]), 0.5 * (x[high] + x[min(high + 1, len(x) - 1)])
                edges = edges[0] - 1e-6, edges[1] + 1e-6
                fit = ROOT.TF1("user", "pol%d" % case["order"], *edges)
            canvas, hist, graph, got = finder.plot_fft_fit(title, peak, low, high, fit)
            require(fit is None or got == fit, "not the fit given")
            inside = [i for i in range(len(x)) if x[low] - 1e-9 <= x[i] <= x[high] + 1e-9]
            require(got in list(canvas.GetListOfPrimitives()), "fit not on the canvas")
            if kind == "line":
                inside = [i for i in range(len(x)) if edges[0] < x[i] < edges[1]]
                want = numpy.polyfit([x[i] for i in inside], [y[i] for i in inside], case["order"])[::-1]
                size = max(y[i] for i in inside)
                for i in inside:
                    require_close(got.Eval(x[i]), sum(w * x[i] ** k for k, w in enumerate(want)), "fit at %g" % x[i], 0, 1e-4 * size)
            else:
                require_close(got.GetXmin(), x[low], "fit from", 1e-9, 1e-12)
                require_close(got.GetXmax(), x[high], "fit to", 1e-9, 1e-12)
                require(got.GetNpar() == 3 and got.GetNumberFitPoints() == len(inside), "points fitted:", got.GetNumberFitPoints(), "of", len(inside))
        finder_points = list(zip(finder.k_mag_x, finder.k_mag_y))
        same_points(root_points(graph), sorted(finder_points), "spectrum")
        size = math.fsum(abs(v) for v in u)
        for k, m in spectrum(u):
            require(any(abs(k - a) < 1e-9 and abs(m - b) < 1e-9 * size for a, b in finder_points), "no point for frequency", k, m)
        require(bool(canvas.GetLogy()), "not a log scale")
        if kind == "fft":
            ymin = max(1e-5, min(finder.k_mag_y)) if case["ymin"] is None else case["ymin"]
            low, high = limits(list(finder.k_mag_y), 0.1, ymin, case["ymax"])
            if low < high:
                close_pair((hist.GetYaxis().GetXmin(), hist.GetYaxis().GetXmax()), (low, high), "y range")
        require((hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()) == ("frequency", "magnitude"), "titles of axes")
    require(hist.GetTitle() == title, "title", hist.GetTitle())
    require(graph in list(canvas.GetListOfPrimitives()), "graph not on the canvas")
    require((finder.u, finder.up) == (u, up), "data changed")
    Common.clear_root()
    note.label(kind)
    note.nontrivial(kind in ("line", "gauss"))
