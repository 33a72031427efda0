"""Runs operations of xboa in this process, in which some packages can not be imported.

usage: nopackages.py LIBDIR HYPOTHESIS BLOCKED,BLOCKED,...   - one json case a line in, one json answer a line out
"""
import contextlib
import importlib.abc
import io
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Block(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = set(n for n in names if n)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ImportError("%s is blocked" % name)
        return None


def plain(value):
    """Json of a result"""
    if isinstance(value, bool) or value is None or isinstance(value, (int, str)):
        return value
    if isinstance(value, float):
        return value if value == value and abs(value) != float("inf") else repr(value)
    if hasattr(value, "tolist"):
        return plain(value.tolist())
    if isinstance(value, dict):
        return dict((str(k), plain(v)) for k, v in value.items())
    if type(value).__name__ == "Hit":       # a hit
        return [plain(value.get(k)) for k in gen.DOUBLES + gen.INTS]
    if isinstance(value, (list, tuple)) or hasattr(value, "__iter__") or hasattr(value, "hits"):
        return [plain(v) for v in value]
    return type(value).__name__


OPS = {}


def op(*needs):
    def add(function):
        OPS[function.__name__] = (function, set(needs))
        return function
    return add


# -- hits ---------------------------------------------------------------------------------------------------------

@op()
def hit_get(hits, n):
    from xboa.hit import Hit
    return [[h.get(v) for v in Hit.get_variables() if v] for h in make(hits)]


@op()
def hit_set(hits, n):
    out = make(hits)
    for h in out:
        h.set("p", 100. + n)
        h.mass_shell_condition("energy")
        h["x'"] = 0.1
        h["kinetic_energy"] = 50.
    return out


@op()
def hit_copy(hits, n):
    import copy
    import pickle
    return [(h.copy(), h.deepcopy(), copy.copy(h), pickle.loads(pickle.dumps(h)), h.check(), h == h.copy()) for h in make(hits)]


@op()
def hit_transform(hits, n):
    out = make(hits)
    for h in out:
        h.translate({"x": float(n), "pz": 2.}, "energy")
        h.get_vector(["x", "y", "px"], {"x": 1.}) if "numpy" not in BLOCKED else None
    return out


@op("numpy")
def hit_abelian(hits, n):
    import numpy
    out = make(hits)
    for h in out:
        h.abelian_transformation(["x", "px"], numpy.matrix([[0.5, 1. + n], [0.25, 1.]]), {"y": 1.}, {"x": 2., "px": 1.}, "energy")
    return out


@op()
def hit_files(hits, n):
    from xboa.bunch import Bunch
    bunch, out = make_bunch(hits), []
    for form in ("icool_for003", "g4beamline_bl_track_file", "maus_json_virtual_hit"):
        bunch.hit_write_builtin(form, "file")
        out.append([h for h in Bunch.new_from_read_builtin(form, "file")])
    with open("file", "w") as f:
        bunch.hit_write_user(["x", "pz", "pid"], {"x": "m", "pz": "GeV/c", "pid": ""}, f)
    with open("file") as f:
        out.append(list(Bunch.new_from_read_user(["x", "pz", "pid"], {"x": "m", "pz": "GeV/c", "pid": ""}, f, 0)))
    return out


@op("ROOT", "maus")
def read_maus_root(hits, n):
    from xboa.bunch import Bunch
    return Bunch.read_maus_root_file("file")


# -- bunches ------------------------------------------------------------------------------------------------------

@op()
def bunch_list(hits, n):
    b = make_bunch(hits)
    b.append(b[0].deepcopy())
    b[-1]["x"] = float(n)
    c = b.deepcopy()
    del c[0]
    return list(b), list(c), b == c, len(b), [list(x) for x in b.split("event_number").values()], b.get_hits("event_number", n)


@op()
def bunch_moments(hits, n):
    b = make_bunch(hits)
    b.period_transformation(1., 0.3)
    return (b.mean(["x", "px", "pt"]), b.moment(["x", "px"]), b.moment(["x", "x"], {"x": 1.}), b.standard_deviation("y"),
            b.bunch_weight(), b.get_kinetic_angular_momentum(), b.get("mean", ["x"]), b.get("bunch_weight", []))


@op()
def bunch_cut(hits, n):
    import operator
    b = make_bunch(hits)
    b.cut({"x": 0.}, operator.lt)
    b.cut({"r": 3.}, operator.gt, True, True)
    weights = [h["weight"] for h in b]
    c = make_bunch(hits)
    c.conditional_remove({"event_number": n}, operator.gt)
    b.transmission_cut(c)
    b.translate({"z": 1.})
    return weights, b, c, b.list_get_hit_variable(["x", "pz"], ["mm", "GeV/c"])


@op("numpy")
def bunch_covariance(hits, n):
    b = make_bunch(hits)
    c = [b.covariance_matrix(["x", "px", "y", "py"]), b.covariance_matrix(["t"], {"t": 1.})]
    b.set_covariance_matrix()
    return c, b.covariances_set(), b.covariance_matrix(["x", "px"])


@op("numpy")
def bunch_optics(hits, n):
    b = make_bunch(hits)
    return [b.get_emittance(["x"]), b.get_emittance(["x", "y"]), b.get_beta(["x"]), b.get_alpha(["y"]), b.get_gamma(["x", "y"]),
            b.get_dispersion("x"), b.get_dispersion_prime("y"), b.get("emittance", ["x"]), b.get_amplitude(b, b[0], ["x"]),
            b.get_hit_variable(b[0], "amplitude x")]


@op("numpy")
def bunch_transform_to(hits, n):
    import numpy
    b = make_bunch(hits)
    b.transform_to(["x", "px"], numpy.matrix([[100., 3.], [3., 4. + n]]), {}, {}, "energy")
    return b.covariance_matrix(["x", "px"])


@op("numpy")
def bunch_abelian(hits, n):
    import numpy
    b = make_bunch(hits)
    b.abelian_transformation(["x", "px"], numpy.matrix([[0.5, 1. + n], [0.25, 1.]]))
    return b


@op("numpy")
def ellipses(hits, n):
    from xboa.bunch import Bunch
    return Bunch.build_ellipse_2d(300., 0.5, 5. + n, 200., 105.658, False), Bunch.build_penn_ellipse(6., 105.658, 300., 0., 200. + n, 0.1, 1e-3, 1.)


@op("numpy")
def bunch_histogram(hits, n):
    b = make_bunch(hits)
    return b.histogram("x", "m", "px", "GeV/c", 3, 4), b.histogram_var_bins("y", [-50., 0., float(n + 1)])


@op("numpy")
def hit_shell(hits, n):
    import numpy
    from xboa.bunch import Bunch
    return Bunch.new_hit_shell(3, numpy.matrix([[2. + n, 0.5], [0.5, 1.]]), ["x", "px"], "energy", {"pid": -13, "mass": 105.658, "pz": 200.})


@op()
def global_weights(hits, n):
    from xboa.hit import Hit
    b = make_bunch(hits)
    b[0]["global_weight"] = 0.25
    out = [h["weight"] for h in b]
    Hit.clear_global_weights()
    b.clear_local_weights()
    return out, [h["weight"] for h in b]


# -- common -------------------------------------------------------------------------------------------------------

@op()
def common_lists(hits, n):
    import xboa.common as c
    xs = [h["x"] for h in hits]
    ys = [h["y"] for h in hits]
    return (c.min_max(xs), c.min_max(xs, [float(i % 2) for i in range(len(xs))], 0.2), c.multisort([list(xs), list(ys)]),
            c.n_bins(100 + n), c.get_bin_edges(xs, 4))


@op("ROOT")
def common_ks(hits, n):
    import xboa.common as c
    return c.kolmogorov_smirnov_test([h["x"] for h in hits], [h["y"] + n for h in hits])


@op()
def common_processes(hits, n):
    import xboa.common as c
    return c.process_list(double, [(h["x"],) for h in hits[:4]], 2)


def double(x):
    return 2 * x


@op()
def common_substitute(hits, n):
    import xboa.common as c
    with open("in", "w") as f:
        f.write("__a__ and __b__\n")
    c.substitute("in", "out", {"__a__": str(n), "__b__": "b"})
    return open("out").read()


@op()
def common_tables(hits, n):
    import xboa.common as c
    return c.units["m"], c.constants["c_light"], c.pdg_pid_to_mass[13], c.icool_pid_to_pdg[2]


@op("numpy")
def common_histogram(hits, n):
    import xboa.common as c
    return c.histogram([h["x"] for h in hits], [-20., 0., 1. + n], [h["y"] for h in hits], [-30., 0., 50.])


@op("numpy")
def common_grid(hits, n):
    import xboa.common as c
    return [plain(v) for v in c.make_grid(2, 3)]


@op("numpy")
def common_shell(hits, n):
    import xboa.common as c
    if "numpy" in BLOCKED:
        return c.make_shell(3, [[1., 0.], [0., 1.]])
    import numpy
    return [plain(v) for v in c.make_shell(3, numpy.matrix([[1. + n, 0.5], [0.5, 1.]]))]


@op("numpy")
def common_newton(hits, n):
    import xboa.common as c
    return c.nd_newton_raphson1(lambda x: [x[0] * 2. - n], [1e-9], [1.], [0.5], verbose=False)


@op("numpy")
def common_fit_ellipse(hits, n):
    import xboa.common as c
    if "numpy" in BLOCKED:
        return c.fit_ellipse([[1., 2.], [3., 1.], [5., 6.]], 1.)
    import numpy
    return c.fit_ellipse(numpy.array([[h["x"], h["y"]] for h in hits]), 5., verbose=False)


@op("ROOT", "numpy")
def root_plots(hits, n):
    import xboa.common as c
    xs, ys = [h["x"] for h in hits], [h["y"] for h in hits]
    canvas = c.make_root_canvas("canvas")
    hist = c.make_root_histogram("hist", xs, "x", 5, ys, "y", 5)
    hist_1d, graph = c.make_root_graph("graph", xs, "x", ys, "y")
    c.clear_root()
    return hist.GetEntries(), graph.GetN()


@op("ROOT", "numpy")
def bunch_root(hits, n):
    b = make_bunch(hits)
    canvas, hist = b.root_histogram("x", "mm", nx_bins=5)
    return hist.GetNbinsX(), hist.GetSumOfWeights()


@op("ROOT")
def bunch_root_scatter(hits, n):
    canvas, hist, graph = make_bunch(hits).root_scatter_graph("x", "y")
    return graph.GetN()


@op("matplotlib", "numpy")
def matplot_histogram(hits, n):
    import xboa.common as c
    c.make_matplot_histogram([h["x"] for h in hits], "x", 5)


@op("matplotlib", "numpy")
def matplot_graph(hits, n):
    import xboa.common as c
    c.make_matplot_graph([h["x"] for h in hits], "x", [h["y"] for h in hits], "y")


@op("matplotlib", "numpy")
def matplot_scatter(hits, n):
    make_bunch(hits).matplot_scatter_graph("x", "y")


@op()
def config_report(hits, n):
    import xboa.common.config as config
    out = {}
    for name in "numpy", "scipy", "root", "matplot", "matplotlib", "json", "multiprocessing", "maus":
        try:
            out[name] = getattr(config, "has_" + name)()
        except ImportError:
            out[name] = False
    blocked = {"numpy": "numpy", "scipy": "scipy", "root": "ROOT", "matplot": "matplotlib", "matplotlib": "matplotlib"}
    for key, name in blocked.items():
        require(out.pop(key) == available(name), key, BLOCKED)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        config.print_config()
    have, lack = text.getvalue().split("NOT available")
    for key, name in blocked.items():
        if key != "matplotlib":
            require((key in lack.split()) != available(name) and (key in have.split()) == available(name), text.getvalue())
    return out


def available(name):
    """Whether the package can be imported: these need numpy themselves"""
    return name not in BLOCKED and (name not in ("scipy", "matplotlib") or "numpy" not in BLOCKED)


def require(what, *why):
    if not what:
        raise AssertionError(why)


# -- algorithms ---------------------------------------------------------------------------------------------------

@op()
def peaks(hits, n):
    from xboa.algorithms.peak_finder import WindowPeakFinder
    return WindowPeakFinder(2 + n, 0., 1).find_peaks([h["x"] for h in hits])


@op("ROOT")
def uphill_peaks(hits, n):
    from xboa.algorithms.peak_finder import UphillDownhillPeakFinder
    return UphillDownhillPeakFinder().find_peaks([h["x"] for h in hits])


@op("numpy")
def smoothing(hits, n):
    from xboa.algorithms.smoothing import GaussianSmoothing
    return GaussianSmoothing(1. + n, 3, True).smooth([h["x"] for h in hits])


@op("numpy", "ROOT")
def fit_smoothing(hits, n):
    from xboa.algorithms.smoothing import FitSmoothing
    fit = "pol1"
    if "ROOT" not in BLOCKED:
        import ROOT
        fit = ROOT.TF1("line", "[0]+[1]*x", 0., 100.)
    return FitSmoothing(fit).smooth([h["x"] for h in hits])


@op("numpy")
def fft_tune(hits, n):
    from xboa.algorithms.tune import FFTTuneFinder
    import math
    finder = FFTTuneFinder()
    finder.run_tracking = None
    finder.u = [math.cos(0.5 + i * (0.6 + n * 0.1)) for i in range(64)]
    return finder.get_tune()


@op("numpy")
def dphi_tune(hits, n):
    from xboa.algorithms.tune import DPhiTuneFinder
    import math
    finder = DPhiTuneFinder()
    finder.u = [math.cos(0.5 + i * (0.6 + 0.1 * n)) for i in range(20)]
    finder.up = [-math.sin(0.5 + i * (0.6 + 0.1 * n)) for i in range(20)]
    return finder.get_tune()


@op("numpy")
def matrix_tracking(hits, n):
    from xboa.tracking import MatrixTracking
    import numpy
    tracking = MatrixTracking([numpy.matrix(numpy.diag([1. + n] * 5 + [1.]))], [numpy.matrix([[1.] * 6])], numpy.matrix([[0.] * 5 + [-50.]]))
    return tracking.track_many(make(hits[:3]))


@op("numpy", "scipy")
def voronoi(hits, n):
    from xboa.bunch.weighting import VoronoiWeighting
    b = make_bunch(hits)
    if "numpy" in BLOCKED:
        return VoronoiWeighting(["x", "px"], [[1., 0.], [0., 1.]])
    import numpy
    VoronoiWeighting(["x", "px"], numpy.array([[100., 3.], [3., 30.]])).apply_weights(b, False)
    return b


@op("numpy")
def closed_orbit_shell(hits, n):
    from xboa.algorithms.closed_orbit import EllipseClosedOrbitFinder
    return EllipseClosedOrbitFinder(None, make(hits)[0])

# -- importing every module ---------------------------------------------------------------------------------------

def importing(module, *needs):
    def function(hits, n):
        import importlib
        return importlib.import_module(module).__name__
    function.__name__ = "import " + module
    op(*needs)(function)


for _module in ("Bunch", "Common", "Hit", "core", "hit", "hit.factory", "bunch", "common", "common.config", "common.utils", "common._common",
                "common.root_wrapper", "common.matplotlib_wrapper", "hit._hit", "hit.factory._builtin_hit_factory", "hit.factory._user_hit_factory",
                "hit.factory._maus_json_hit_factory", "hit.factory._opal_hit_factory", "hit.factory._line_factory_base", "bunch._bunch",
                "algorithms", "algorithms.peak_finder", "algorithms.closed_orbit"):
    importing("xboa." + _module)
for _module in ("bunch.weighting", "bunch.weighting._bounding_ellipse", "algorithms.decoupled_transfer_matrix", "algorithms.smoothing", "algorithms.tune", "tracking", "tracking.tracking_process"):
    importing("xboa." + _module, "numpy")


def make(hits):
    return [gen.make_hit(d) for d in hits]


def make_bunch(hits):
    return gen.beam_bunch(hits)


def main():
    global gen, BLOCKED
    libdir, BLOCKED = sys.argv[1], [b for b in sys.argv[3].split(",") if b != "-"]
    sys.path.append(sys.argv[2])        # where hypothesis is
    warnings.simplefilter("ignore")
    sys.meta_path.insert(0, Block(BLOCKED))
    from vlib import env
    env.install_xboa(libdir)
    from checks import gen as generators
    gen = generators
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        name, spec, n = json.loads(line)
        gen.clear_weights()
        try:
            answer = ["ok", plain(OPS[name][0](gen.beam(spec, 8), n))]
        except ImportError:
            answer = ["ImportError"]
        except BaseException as exc:
            import traceback
            answer = ["error", repr(exc), traceback.format_exc()[-600:]]
        out.write(json.dumps(answer) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
