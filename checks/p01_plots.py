"""P01: plots show exactly the data they were given."""
import math
import os

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
os.environ["MPLBACKEND"] = "Agg"
VAL = gen.smooth(-20, 20, 80)
POINTS = st.lists(st.tuples(VAL, VAL), min_size=1, max_size=12)
LABEL = st.text("abc xyz[]/", max_size=8)


def pyplot():
    import matplotlib.pyplot as plt
    plt.close("all")
    return plt


def root():
    import ROOT
    ROOT.gROOT.SetBatch(True)
    ROOT.gErrorIgnoreLevel = ROOT.kError
    return ROOT


def limits(values, margin=0.1, lo=None, hi=None):
    a, b = min(values), max(values)
    a, b = a - (b - a) * margin, b + (b - a) * margin
    if b - a < 1e-9:
        a, b = a - 1, b + 1
    return (a if lo is None else lo), (b if hi is None else hi)


def close_pair(got, want, what):
    require_close(got[0], want[0], what, 1e-9, 1e-9)
    require_close(got[1], want[1], what, 1e-9, 1e-9)


def same_points(got, want, what, ordered=True):
    got = [(float(a), float(b)) for a, b in got]
    want = [(float(a), float(b)) for a, b in want]
    if not ordered:
        got, want = sorted(got), sorted(want)
    require(len(got) == len(want), what, "has", len(got), "points, not", len(want))
    for p, q in zip(got, want):
        close_pair(p, q, what + " point")


def one_axes(plt, index):
    require(index in plt.get_fignums(), "no figure", index)
    fig = plt.figure(index)
    require(len(fig.axes) == 1, "axes", len(fig.axes))
    return fig.axes[0]


def mpl_index(result, plt):
    """the figure that was drawn on: the result if it names one, or else the current one"""
    return result if isinstance(result, int) else plt.gcf().number


@FACETS.add(strategy=lambda: st.tuples(POINTS, LABEL, LABEL, st.booleans(), st.integers(0, 3), st.booleans()), quick=60, thorough=1500,
            rule="matplotlib graphs and scatter plots: one artist with exactly the points given (sorted by x if asked, "
                 "else in order), labels, and limits 10 percent beyond the data; the figure asked for or a new one; "
                 "keyword arguments reach the artist; the lists given are unchanged; non-trivial: unsorted points")
def mpl_graphs(case, note):
    import xboa.common as Common
    from xboa.common import matplotlib_wrapper as wrapper
    points, xl, yl, sort, kind, own = case
    x, y = [p[0] for p in points], [p[1] for p in points]
    keep = list(x), list(y)
    plt = pyplot()
    before = set(plt.get_fignums())
    fig = {"fig_index": 977} if own and kind in (1, 3) else {}
    kwds = {"kwds": {"alpha": 0.25}} if own and kind in (1, 3) else {}
    if kind == 0:
        got = Common.make_matplot_graph(x, xl, y, yl, sort)
    elif kind == 1:
        got = wrapper.make_graph(x, xl, y, yl, sort, **fig, **kwds)
    elif kind == 2:
        got = Common.make_matplot_scatter(x, xl, y, yl)
    else:
        got = wrapper.make_scatter(x, xl, y, yl, **fig, **kwds)
    require((x, y) == keep, "lists changed", x, y)
    index = mpl_index(got, plt)
    require(len(set(plt.get_fignums()) - before) == 1, "figures", plt.get_fignums())
    if fig:
        require(index == 977, "figure", index)
    axes = one_axes(plt, index)
    require(axes.get_xlabel() == xl and axes.get_ylabel() == yl, "labels", axes.get_xlabel(), axes.get_ylabel())
    if kind < 2:
        line, = axes.lines
        want = sorted(points, key=lambda p: p[0]) if sort else points
        same_points(zip(line.get_xdata(), line.get_ydata()), want, "line")
        close_pair(axes.get_xlim(), limits(x), "x limits")
        close_pair(axes.get_ylim(), limits(y), "y limits")
        artist = line
    else:
        artist, = axes.collections
        same_points(artist.get_offsets(), points, "scatter", ordered=False)
    if kwds:
        require(artist.get_alpha() == 0.25, "keyword not used")
    if not fig and isinstance(got, int):
        again = wrapper.get_figure_index()
        require(again not in (got,) and again not in plt.get_fignums(), "figure index", again)
    plt.close("all")
    note.label(["common graph", "graph", "common scatter", "scatter"][kind])
    note.nontrivial(x != sorted(x))


@FACETS.add(strategy=lambda: st.tuples(st.lists(POINTS, min_size=1, max_size=4), LABEL, LABEL, st.booleans()), quick=50, thorough=1000,
            rule="matplotlib multigraphs: one line per list, each with exactly its points sorted by x, limits 10 percent "
                 "beyond all of them, labels; lists unchanged; non-trivial: several lists")
def mpl_multigraphs(case, note):
    import xboa.common as Common
    from xboa.common import matplotlib_wrapper as wrapper
    lists, xl, yl, wrapped = case
    x, y = [[p[0] for p in pts] for pts in lists], [[p[1] for p in pts] for pts in lists]
    keep = [list(a) for a in x], [list(a) for a in y]
    plt = pyplot()
    if wrapped:
        got = wrapper.make_multigraph(x, xl, y, yl, kwds=[{"alpha": 0.5}])
        index = got
    else:
        Common.make_matplot_multigraph(x, xl, y, yl)
        index = plt.gcf().number
    require((x, y) == keep, "lists changed")
    axes = one_axes(plt, index)
    require(axes.get_xlabel() == xl and axes.get_ylabel() == yl, "labels")
    require(len(axes.lines) == len(lists), "lines", len(axes.lines))
    for line, pts in zip(axes.lines, lists):
        same_points(zip(line.get_xdata(), line.get_ydata()), sorted(pts, key=lambda p: p[0]), "line")
    if wrapped:
        require([line.get_alpha() for line in axes.lines] == [0.5] + [None] * (len(lists) - 1), "keywords")
    close_pair(axes.get_xlim(), limits(sum(x, [])), "x limits")
    close_pair(axes.get_ylim(), limits(sum(y, [])), "y limits")
    plt.close("all")
    note.nontrivial(len(lists) > 1)


def check_binned(contents, edges, values, weights, what):
    """contents[i] is the weight of values in [edges[i], edges[i+1]], values on an edge belong to either side"""
    for i in range(len(contents)):
        sure = near = 0.0
        for v, w in zip(values, weights):
            tol = 1e-9 * (abs(v) + abs(edges[-1] - edges[0]) + 1e-3)
            if min(abs(v - edges[i]), abs(v - edges[i + 1])) < tol:
                near += w
            elif edges[i] < v < edges[i + 1]:
                sure += w
        require(sure - 1e-9 <= contents[i] <= sure + near + 1e-9, what, "bin", i, "of", edges, "is", contents[i], "not",
                sure, "to", sure + near)
    require_close(math.fsum(contents), math.fsum(weights), what + " total", 1e-9, 1e-9)


WEIGHTED = st.lists(st.tuples(VAL, VAL, st.sampled_from([1.0, 0.5, 2.0, 3.25])), min_size=1, max_size=20)


@FACETS.add(strategy=lambda: st.tuples(WEIGHTED, LABEL, LABEL, st.integers(1, 8), st.integers(1, 8), st.booleans(), st.booleans(), st.booleans()),
            quick=60, thorough=1500,
            rule="matplotlib histograms: in 1D a line through the bin centres over the range of the data whose heights are "
                 "the weights in each bin (empty bins before the first point may be left out), in 2D cells whose "
                 "weights add up to those of the points in them; labels; lists unchanged; non-trivial: weighted")
def mpl_histograms(case, note):
    import xboa.common as Common
    from xboa.common import matplotlib_wrapper as wrapper
    points, xl, yl, nx, ny, two, weighted, wrapped = case
    x, y, w = [p[0] for p in points], [p[1] for p in points], [p[2] if weighted else 1.0 for p in points]
    if max(x) == min(x) or (two and max(y) == min(y)):
        for make in (Common.make_matplot_histogram, wrapper.make_histogram):
            try:
                make([], xl, nx)
                require(False, "histogram of nothing")
            except IndexError:
                pyplot().close("all")
        return
    weights = w if weighted else []
    keep = list(x), list(y), list(weights)
    args = (x, xl, nx) + ((y, yl, ny) if two else ([], yl, 0)) + (weights,)
    plt = pyplot()
    got = wrapper.make_histogram(*args) if wrapped else Common.make_matplot_histogram(*args)
    require((x, y, weights) == keep, "lists changed")
    axes = one_axes(plt, mpl_index(got, plt))
    require(axes.get_xlabel() == xl, "x label", axes.get_xlabel())
    if two:
        require(axes.get_ylabel() == yl, "y label", axes.get_ylabel())
        cells, = axes.collections
        values = [float(v) for v in cells.get_array().flatten()]
        require_close(math.fsum(values), math.fsum(w), "sum of cells", 1e-9)
        if wrapped:
            require(len(values) == nx * ny, "cells", len(values))
            ex = [min(x) + (max(x) - min(x)) * i / nx for i in range(nx + 1)]
            ey = [min(y) + (max(y) - min(y)) * i / ny for i in range(ny + 1)]
            grid = cells.get_array().reshape(ny, nx)
            check_binned([float(v) for v in grid.sum(axis=0)], ex, x, w, "columns")
            check_binned([float(v) for v in grid.sum(axis=1)], ey, y, w, "rows")
    else:
        line, = axes.lines
        h = (max(x) - min(x)) / nx
        heights = [0.0] * nx
        for c, n in zip(line.get_xdata(), line.get_ydata()):
            i = int(round((c - min(x)) / h - 0.5))
            require_close(c, min(x) + (i + 0.5) * h, "bin centre", 1e-9, 1e-9)
            require(0 <= i < nx and heights[i] == 0.0, "bin", i)
            heights[i] = float(n)
        check_binned(heights, [min(x) + i * h for i in range(nx + 1)], x, w, "1D")
    plt.close("all")
    note.label("2D" if two else "1D", "wrapper" if wrapped else "common")
    note.nontrivial(weighted)


@FACETS.add(strategy=lambda: st.tuples(st.integers(1, 4), st.integers(1, 4), st.lists(st.sampled_from([0.0, 1.0, 2.0, 5.0, -1.5, 1e-9]), min_size=32, max_size=32),
                                       st.lists(gen.smooth(0.5, 3, 10), min_size=8, max_size=8), st.sampled_from([0.0, -1.0, 7.0]), st.booleans(), st.integers(0, 5)),
            quick=60, thorough=1500,
            rule="plot_hist2d_ratio over uneven edges draws and returns h1/h2 in each cell, and the given value where h2 is "
                 "0; arrays of different shape raise ValueError; inputs are unchanged; non-trivial: some cell of h2 is 0")
def mpl_ratio(case, note):
    import numpy
    from xboa.common import matplotlib_wrapper as wrapper
    nx, ny, numbers, steps, on_nan, arrays, bad = case
    xe = [sum(steps[:i]) for i in range(nx + 1)]
    ye = [-5 + sum(steps[4:4 + i]) for i in range(ny + 1)]
    h1 = [numbers[i * ny:(i + 1) * ny] for i in range(nx)]
    h2 = [numbers[16 + i * ny:16 + (i + 1) * ny] for i in range(nx)]
    if arrays:
        h1, h2 = numpy.array(h1), numpy.array(h2)
    plt = pyplot()
    axes = plt.figure().add_subplot(111)
    if bad == 0:
        for broken in ([list(r) for r in h2][:-1], [list(r) for r in h2][:-1] + [list(h2[-1]) + [1.0]]):
            try:
                wrapper.plot_hist2d_ratio(axes, h1, broken, xe, ye)
                require(False, "different shapes accepted")
            except ValueError:
                pass
    keep = numpy.array(h1).tolist(), numpy.array(h2).tolist(), list(xe), list(ye)
    got = wrapper.plot_hist2d_ratio(axes, h1, h2, xe, ye, on_nan=on_nan)
    require((numpy.array(h1).tolist(), numpy.array(h2).tolist(), xe, ye) == keep, "inputs changed")
    require(len(got) == 4, "returned", len(got))
    shown = axes.collections[-1].get_array().reshape(ny, nx)
    for i in range(nx):
        for j in range(ny):
            want = on_nan if h2[i][j] == 0 else h1[i][j] / h2[i][j]
            require_close(got[0][i][j], want, "cell %d %d" % (i, j), 1e-9, 1e-12)
            require_close(shown[j][i], want, "cell shown %d %d" % (i, j), 1e-9, 1e-12)
    for a, b in zip(list(got[1]) + list(got[2]), xe + ye):
        require_close(a, b, "edge", 1e-12)
    plt.close("all")
    note.nontrivial(0.0 in [v for r in keep[1] for v in r])


VARS = ["x", "px", "y", "t", "r", "kinetic_energy"]
UNIT = {"x": ("mm", "cm", "m", ""), "y": ("mm", "m"), "px": ("MeV/c", "GeV/c"), "t": ("ns", "mus"), "r": ("", "cm"), "kinetic_energy": ("MeV", "keV")}
SCALE = {"": 1.0, "mm": 1.0, "cm": 10.0, "m": 1e3, "MeV/c": 1.0, "GeV/c": 1e3, "ns": 1.0, "mus": 1e3, "MeV": 1.0, "keV": 1e-3}


@st.composite
def bunch_plots(draw):
    v1, v2 = draw(st.sampled_from(VARS)), draw(st.sampled_from(VARS))
    return {"spec": draw(gen.beam_spec), "v1": v1, "v2": v2, "u1": draw(st.sampled_from(UNIT[v1])), "u2": draw(st.sampled_from(UNIT[v2])),
            "two": draw(st.booleans()), "all": draw(st.booleans()), "root": draw(st.booleans()), "bins": draw(st.one_of(st.none(), st.integers(1, 9))),
            "lo": draw(st.one_of(st.none(), gen.smooth(-300, -1, 20))), "hi": draw(st.one_of(st.none(), gen.smooth(1, 300, 20))),
            "option": draw(st.sampled_from(["", "", "BOX", "HIST"]))}


def axis_text(text, unit):
    """tolerates spaces at the end"""
    return text + (" [" + unit + "]" if unit else "")


def root_points(graph):
    return [(graph.GetPointX(i), graph.GetPointY(i)) for i in range(graph.GetN())]


@FACETS.add(strategy=bunch_plots, quick=60, thorough=1500,
            rule="Bunch scatter plots in matplotlib and ROOT show x and y of every hit (of those with weight, if asked) in "
                 "the units asked for, which stand on the axes; the bunch is unchanged; non-trivial: units other than internal")
def bunch_scatter(case, note):
    hits = gen.beam(case["spec"])
    bunch = gen.beam_bunch(hits)
    w = gen.weights_of(hits)
    want = [(ref.derived(d, case["v1"]) / SCALE[case["u1"]], ref.derived(d, case["v2"]) / SCALE[case["u2"]])
            for d, wt in zip(hits, w) if case["all"] or wt > 1e-9]
    if not want:
        return
    keep = repr(bunch)
    if case["root"]:
        root()
        canvas, hist, graph = bunch.root_scatter_graph(case["v1"], case["v2"], case["u1"], case["u2"], case["all"], xmin=case["lo"], xmax=case["hi"])
        same_points(root_points(graph), want, "graph", ordered=False)
        labels = hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()
        close_pair((hist.GetXaxis().GetXmin(), hist.GetXaxis().GetXmax()), limits([p[0] for p in want], 0.1, case["lo"], case["hi"]), "x range")
        close_pair((hist.GetYaxis().GetXmin(), hist.GetYaxis().GetXmax()), limits([p[1] for p in want]), "y range")
        require([graph in canvas.GetListOfPrimitives(), hist in canvas.GetListOfPrimitives()] == [True, True], "not on the canvas")
        again = bunch.root_scatter_graph(case["v1"], case["v2"], case["u1"], case["u2"], case["all"], canvas)
        require(again[0] is canvas and all(g in canvas.GetListOfPrimitives() for g in (hist, graph, again[2])), "not on the canvas given")
        require(again[1] not in canvas.GetListOfPrimitives(), "new axes on the canvas given")
        same_points(root_points(again[2]), want, "second graph", ordered=False)
        import xboa.common as Common
        Common.clear_root()
    else:
        plt = pyplot()
        fig = bunch.matplot_scatter_graph(case["v1"], case["v2"], case["u1"], case["u2"], case["all"])
        axes, = fig.axes
        artist, = axes.collections
        same_points(artist.get_offsets(), want, "scatter", ordered=False)
        labels = axes.get_xlabel(), axes.get_ylabel()
        plt.close("all")
    for got, v, u in zip(labels, (case["v1"], case["v2"]), (case["u1"], case["u2"])):
        require(got.strip() == axis_text(v, u), "label", repr(got), "expected", axis_text(v, u))
    require(repr(bunch) == keep, "bunch changed")
    note.label("ROOT" if case["root"] else "matplotlib")
    note.nontrivial(SCALE[case["u1"]] != 1 or SCALE[case["u2"]] != 1)


@FACETS.add(strategy=bunch_plots, quick=60, thorough=1500,
            rule="Bunch histograms in matplotlib and ROOT hold the weight of the hits in each bin, in 1D or 2D, whatever the "
                 "draw option, over the data or the limits given, labelled with variable and unit; "
                 "non-trivial: weights or 2D")
def bunch_histograms(case, note):
    hits = gen.beam(case["spec"], 5)
    bunch = gen.beam_bunch(hits)
    w = gen.weights_of(hits)
    x = [ref.derived(d, case["v1"]) / SCALE[case["u1"]] for d in hits]
    y = [ref.derived(d, case["v2"]) / SCALE[case["u2"]] for d in hits]
    args = (case["v1"], case["u1"]) + ((case["v2"], case["u2"]) if case["two"] else ())
    keep = repr(bunch)
    if max(x) - min(x) < 1e-6 or max(y) - min(y) < 1e-6 or not sum(v > 0 for v in w) > 2:
        return
    if case["root"]:
        import xboa.common as Common
        root()
        kw = {} if case["bins"] is None else {"nx_bins": case["bins"], "ny_bins": case["bins"]}
        kw.update((k, v) for k, v in (("xmin", case["lo"]), ("xmax", case["hi"])) if v is not None)
        canvas, hist = bunch.root_histogram(*args, draw_option=case["option"], **kw)
        ax, ay = hist.GetXaxis(), hist.GetYaxis()
        live = [(a, b, c) for a, b, c in zip(x, y, w) if c > 1e-6]
        if limits([p[0] for p in live], 0.0, case["lo"], case["hi"])[0] >= limits([p[0] for p in live], 0.0, case["lo"], case["hi"])[1]:
            Common.clear_root()
            return
        close_pair((ax.GetXmin(), ax.GetXmax()), limits([p[0] for p in live], 0.0, case["lo"], case["hi"]), "x range")
        require(hist.GetDimension() == (2 if case["two"] else 1), "dimension", hist.GetDimension())
        nx = ax.GetNbins()
        require(case["bins"] is None or nx == case["bins"], "bins", nx)
        edges = [ax.GetBinLowEdge(i) for i in range(1, nx + 2)]
        margin = 1e-9 * (1 + abs(edges[0]) + abs(edges[-1]))
        # with under- and overflow, ROOT keeps all the weight
        if case["two"]:
            close_pair((ay.GetXmin(), ay.GetXmax()), limits([p[1] for p in live], 0.0), "y range")
            columns = [math.fsum(hist.GetBinContent(i, j) for j in range(ay.GetNbins() + 2)) for i in range(nx + 2)]
            rows = [math.fsum(hist.GetBinContent(i, j) for i in range(nx + 2)) for j in range(ay.GetNbins() + 2)]
            e = [ay.GetBinLowEdge(i) for i in range(1, ay.GetNbins() + 2)]
            check_binned(rows, [min(min(y), e[0]) - 1.0] + e + [max(max(y), e[-1]) + 1.0], y, w, "rows")
            require(ay.GetTitle().strip() == axis_text(case["v2"], case["u2"]), "y label", ay.GetTitle())
        else:
            columns = [hist.GetBinContent(i) for i in range(nx + 2)]
        check_binned(columns, [min(min(x), edges[0]) - 1.0] + edges + [max(max(x), edges[-1]) + 1.0], x, w, "columns")
        require(ax.GetTitle().strip() == axis_text(case["v1"], case["u1"]), "x label", ax.GetTitle())
        require(hist in list(canvas.GetListOfPrimitives()), "histogram not on the canvas")
        again = bunch.root_histogram(*args, canvas=canvas, **kw)
        require(again[0] is canvas and all(h in list(canvas.GetListOfPrimitives()) for h in (hist, again[1])), "not on the canvas given")
        require(again[1].GetSumOfWeights() == hist.GetSumOfWeights(), "second histogram differs")
        Common.clear_root()
    else:
        plt = pyplot()
        bunch.matplot_histogram(*args)
        axes = one_axes(plt, plt.gcf().number)
        require(axes.get_xlabel().strip() == axis_text(case["v1"], case["u1"]), "x label", axes.get_xlabel())
        if case["two"]:
            require(axes.get_ylabel().strip() == axis_text(case["v2"], case["u2"]), "y label", axes.get_ylabel())
            total = math.fsum(float(v) for v in axes.collections[0].get_array())
        else:
            line, = axes.lines
            total = math.fsum(float(v) for v in line.get_ydata())
        require_close(total, math.fsum(w), "total weight", 1e-9)
        plt.close("all")
    require(repr(bunch) == keep, "bunch changed")
    note.label("ROOT" if case["root"] else "matplotlib", "2D" if case["two"] else "1D")
    note.nontrivial(case["two"] or case["spec"]["weights"] != "one")


QUANTITY = [("mean", ["x"], "cm", 10.0), ("mean", ["energy"], "GeV", 1e3), ("moment", ["x", "x"], "", 1.0), ("bunch_weight", [], "", 1.0),
            ("mean", ["t"], "ns", 1.0)]


@FACETS.add(strategy=lambda: st.tuples(st.lists(gen.beam_spec, min_size=1, max_size=5), st.integers(0, 4), st.integers(0, 4), st.booleans(),
                                       st.sampled_from(["none", "up", "down"]), st.booleans()), quick=40, thorough=800,
            rule="graphs of bunch quantities over a list or dict of bunches, in matplotlib and ROOT, have one point per "
                 "bunch with its two quantities in units, sorted by x or in the order the comparator makes; bunches "
                 "and the list keep their order; non-trivial: at least 3 bunches")
def bunch_graphs(case, note):
    import xboa.common as Common
    from xboa.bunch import Bunch
    specs, i, j, use_root, order, as_dict = case
    gen.clear_weights()
    spec_hits = [gen.beam(dict(s, weights="local")) for s in specs]
    bunches = [gen.make_bunch(h) for h in spec_hits]
    (n1, l1, u1, s1), (n2, l2, u2, s2) = QUANTITY[i], QUANTITY[j]

    def value(name, variables, hits):
        b = ref.Bunch(hits, gen.weights_of(hits))
        return b.weight() if name == "bunch_weight" else b.mean(variables[0]) if name == "mean" else b.moment(variables)
    rows = [(value(n1, l1, h) / s1, value(n2, l2, h) / s2) for h in spec_hits]
    sizes = [len(h) for h in spec_hits]
    comparator = None
    want = sorted(rows)
    if order != "none":
        sign = 1 if order == "up" else -1
        comparator = lambda a, b: sign * (len(a) - len(b))
        want = [rows[k] for k in sorted(range(len(rows)), key=lambda k: sign * sizes[k])]
    given = dict((3 * k, b) for k, b in enumerate(bunches)) if as_dict else list(bunches)
    if use_root:
        root()
        canvas, hist, graph = Bunch.root_graph(given, n1, l1, n2, l2, u1, u2, comparator=comparator)
        points = root_points(graph)
        labels = hist.GetXaxis().GetTitle(), hist.GetYaxis().GetTitle()
        require(hist in canvas.GetListOfPrimitives() and graph in canvas.GetListOfPrimitives(), "not on the canvas")
        again = Bunch.root_graph(given, n1, l1, n2, l2, u1, u2, canvas, comparator)
        require(again[0] is canvas and all(g in canvas.GetListOfPrimitives() for g in (hist, graph, again[2])), "not on the canvas given")
        same_points(root_points(again[2]), points, "second graph")
        Common.clear_root()
    else:
        plt = pyplot()
        fig = Bunch.matplot_graph(given, n1, l1, n2, l2, u1, u2, comparator)
        axes, = fig.axes
        line, = axes.lines
        points = list(zip(line.get_xdata(), line.get_ydata()))
        labels = axes.get_xlabel(), axes.get_ylabel()
        plt.close("all")
    if order == "none":
        points = sorted(points) if len(set(round(r[0], 6) for r in rows)) < len(rows) else points
    for p, q in zip(points, want):
        require_close(p[0], q[0], "x", 1e-7, 1e-9)
        require_close(p[1], q[1], "y", 1e-7, 1e-9)
    require(len(points) == len(want), "points", len(points))
    for text, name, variables, unit in ((labels[0], n1, l1, u1), (labels[1], n2, l2, u2)):
        require(text.replace(" ", "").startswith(name + "(") and all(v in text for v in variables) and ("[" + unit + "]" in text) == bool(unit),
                "label", text)
    require(list(given.values() if as_dict else given) == bunches and all(a is b for a, b in zip(given.values() if as_dict else given, bunches)),
            "list of bunches changed")
    note.label("ROOT" if use_root else "matplotlib", order)
    note.nontrivial(len(specs) > 2)


@FACETS.add(strategy=lambda: st.tuples(WEIGHTED, LABEL.map(lambda s: s + "q"), LABEL.map(lambda s: s + "r"), st.integers(1, 9), st.integers(1, 9), st.booleans(),
                                       st.sampled_from(["none", "same"]), st.one_of(st.none(), gen.smooth(-30, -1, 10)),
                                       st.one_of(st.none(), gen.smooth(1, 30, 10)), st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 5))),
            quick=80, thorough=2000,
            rule="make_root_histogram: bins, ranges, contents including under- and overflow, titles and styles are as asked "
                 "for; lists unchanged; non-trivial: weights")
def root_histograms(case, note):
    import xboa.common as Common
    root()
    points, xl, yl, nx, ny, two, weights, lo, hi, (color, style, width) = case
    x, y, w = [p[0] for p in points], [p[1] for p in points], [p[2] for p in points]
    given = w if weights == "same" else []
    used = w if weights == "same" else [1.0] * len(x)
    keep = list(x), list(y), list(given)
    if limits(x, 0.0, lo, hi)[0] >= limits(x, 0.0, lo, hi)[1]:
        return
    hist = Common.make_root_histogram("name", x, xl, nx, y if two else [], yl, ny if two else 0, given, lo, hi, line_color=color, line_style=style,
                                      line_width=width, fill_color=color + 1, stats=two, hist_title_string="Title")
    require((x, y, given) == keep, "lists changed")
    ax, ay = hist.GetXaxis(), hist.GetYaxis()
    require(hist.GetDimension() == (2 if two else 1) and ax.GetNbins() == nx, "bins")
    require(ax.GetTitle() == xl and hist.GetTitle() == "Title", "titles", ax.GetTitle(), hist.GetTitle())
    require((hist.GetLineColor(), hist.GetLineStyle(), hist.GetLineWidth(), hist.GetFillColor()) == (color, style, width, color + 1), "style")
    close_pair((ax.GetXmin(), ax.GetXmax()), limits(x, 0.0, lo, hi), "x range")
    edges = [ax.GetBinLowEdge(i) for i in range(1, nx + 2)]
    if two:
        require(ay.GetNbins() == ny and ay.GetTitle() == yl, "y axis")
        close_pair((ay.GetXmin(), ay.GetXmax()), limits(y, 0.0), "y range")
        columns = [math.fsum(hist.GetBinContent(i, j) for j in range(ny + 2)) for i in range(nx + 2)]
        rows = [math.fsum(hist.GetBinContent(i, j) for i in range(nx + 2)) for j in range(ny + 2)]
        e = [ay.GetBinLowEdge(i) for i in range(1, ny + 2)]
        check_binned(rows, [min(min(y), e[0]) - 1.0] + e + [max(max(y), e[-1]) + 1.0], y, used, "rows")
    else:
        columns = [hist.GetBinContent(i) for i in range(nx + 2)]
    check_binned(columns, [min(min(x), edges[0]) - 1.0] + edges + [max(max(x), edges[-1]) + 1.0], x, used, "columns")
    name = hist.GetName()
    other = Common.make_root_histogram("name", x, xl, nx)
    require(other.GetName() != name, "two histograms with one name")
    Common.clear_root()
    note.label("2D" if two else "1D", weights)
    note.nontrivial(weights == "same")


@FACETS.add(strategy=lambda: st.tuples(st.lists(POINTS, min_size=1, max_size=4), LABEL.map(lambda s: s + "q"), LABEL.map(lambda s: s + "r"), st.booleans(),
                                       st.one_of(st.none(), gen.smooth(-30, -21, 10)), st.one_of(st.none(), gen.smooth(21, 30, 10)),
                                       st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 5))),
            quick=60, thorough=1200,
            rule="make_root_graph and make_root_multigraph: points (sorted if asked), frames with the ranges and titles, "
                 "styles; canvases and legends have distinct names and the entries given; lists unchanged; "
                 "non-trivial: several points")
def root_graphs(case, note):
    import xboa.common as Common
    root()
    lists, xl, yl, sort, lo, hi, (color, style, width) = case
    points = lists[0]
    x, y = [p[0] for p in points], [p[1] for p in points]
    hist, graph = Common.make_root_graph("graph", x, xl, y, yl, sort, lo, hi, ymin=lo, line_color=color, line_style=style, line_width=width,
                                         hist_title_string="Title")
    require((x, y) == ([p[0] for p in points], [p[1] for p in points]), "lists changed")
    want = sorted(points, key=lambda p: p[0]) if sort else points
    same_points(root_points(graph), want, "graph")
    require((graph.GetLineColor(), graph.GetLineStyle(), graph.GetLineWidth()) == (color, style, width), "style")
    require((graph.GetName(), graph.GetTitle(), hist.GetTitle()) == ("graph", "graph", "Title"), "names")
    ax, ay = hist.GetXaxis(), hist.GetYaxis()
    require((ax.GetTitle(), ay.GetTitle()) == (xl, yl), "titles", ax.GetTitle(), ay.GetTitle())
    close_pair((ax.GetXmin(), ax.GetXmax()), limits(x, 0.1, lo, hi), "x range")
    close_pair((ay.GetXmin(), ay.GetXmax()), limits(y, 0.1, lo), "y range")
    xs, ys = [[p[0] for p in pts] for pts in lists], [[p[1] for p in pts] for pts in lists]
    keep = [list(a) for a in xs], [list(a) for a in ys]
    frame, graphs = Common.make_root_multigraph("multi", xs, xl, ys, yl)
    require((xs, ys) == keep, "lists changed")
    require(len(graphs) == len(lists), "graphs", len(graphs))
    for g, pts in zip(graphs, lists):
        same_points(root_points(g), pts, "multigraph")
    ax, ay = frame.GetXaxis(), frame.GetYaxis()
    require((ax.GetTitle(), ay.GetTitle()) == (xl, yl), "titles", ax.GetTitle(), ay.GetTitle())
    close_pair((ax.GetXmin(), ax.GetXmax()), limits(sum(xs, [])), "x range")
    close_pair((ay.GetXmin(), ay.GetXmax()), limits(sum(ys, [])), "y range")
    canvases = [Common.make_root_canvas("canvas") for _ in range(2)]
    require(canvases[0].GetName() != canvases[1].GetName(), "two canvases with one name")
    require(canvases[0].GetTitle() == "canvas", "canvas title", canvases[0].GetTitle())
    for k, g in enumerate(graphs):
        g.SetName("g%d" % k)
    legend = Common.make_root_legend(canvases[0], graphs)
    require([str(e.GetLabel()) for e in legend.GetListOfPrimitives()] == ["g%d" % k for k in range(len(graphs))], "legend entries")
    for bad in (([], []), ([1.0], [1.0, 2.0])):
        try:
            Common.make_root_graph("bad", bad[0], xl, bad[1], yl)
            require(False, "made a graph of", bad)
        except IndexError:
            pass
    Common.clear_root()
    note.nontrivial(len(points) > 2 and x != sorted(x))


@FACETS.add(strategy=lambda: st.tuples(gen.smooth(-5, 5, 40), gen.smooth(-5, 5, 40), gen.smooth(0.3, 4, 40), gen.smooth(0.3, 4, 40), gen.smooth(-0.9, 0.9, 40),
                                       st.lists(st.tuples(VAL, VAL), min_size=1, max_size=4), st.one_of(st.none(), st.lists(gen.smooth(0.1, 9, 9), min_size=1, max_size=3, unique=True)),
                                       st.sampled_from(["given", "default", "none"])),
            quick=60, thorough=1500,
            rule="make_root_ellipse_function is (v-mean)^T V^-1 (v-mean) at every point, with the contours and range given; "
                 "non-trivial: correlated")
def root_ellipses(case, note):
    import numpy
    import xboa.common as Common
    root()
    mx, my, sx, sy, rho, points, contours, ranged = case
    v = numpy.array([[sx * sx, rho * sx * sy], [rho * sx * sy, sy * sy]])
    limits = {"given": (-3.0, 4.0, -5.0, 6.0), "none": (None,) * 4}.get(ranged, ())
    kw = dict(zip(("xmin", "xmax", "ymin", "ymax"), limits))
    func = Common.make_root_ellipse_function([mx, my], v, contours, **kw)
    det = sx * sx * sy * sy * (1 - rho * rho)
    for a, b in points:
        dx, dy = a - mx, b - my
        want = (sy * sy * dx * dx - 2 * rho * sx * sy * dx * dy + sx * sx * dy * dy) / det
        require_close(func.Eval(a, b), want, "value at %g %g" % (a, b), 1e-9, 1e-9)
    if contours:
        require([func.GetContourLevel(i) for i in range(len(contours))] == contours, "contours")
    got = (func.GetXmin(), func.GetXmax(), func.GetYmin(), func.GetYmax())
    if ranged == "given":
        require(got == limits, "range", got)
    else:
        require(got[0] <= mx <= got[1] and got[2] <= my <= got[3], "mean outside the range", got)
        if ranged == "none":
            close_pair((got[0] + got[1], got[2] + got[3]), (2 * mx, 2 * my), "centre of the range")
    note.nontrivial(rho != 0)
