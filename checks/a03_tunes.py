"""A03: the tune finders find the tune of motion on an ellipse."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()


@st.composite
def ellipses(draw):
    return {"beta": draw(st.one_of(gen.smooth(0.1, 10, 500), gen.smooth(10, 2000, 500))),
            "alpha": draw(gen.smooth(-3, 3, 600)), "amplitude": draw(gen.smooth(0.1, 100, 1000)),
            "phase": draw(gen.smooth(0, 6.28, 600)), "x": draw(gen.smooth(-50, 50, 500)),
            "px": draw(gen.smooth(-5, 5, 500))}


def turn(e, phi):
    """Phase advances clockwise, as for (x, x') in any stable lattice."""
    r = e["amplitude"] * math.sqrt(e["beta"])
    x = r * math.cos(phi)
    return x + e["x"], -(e["amplitude"] * math.sin(phi) + e["alpha"] * x / math.sqrt(e["beta"])) \
        / math.sqrt(e["beta"]) + e["px"]


def points(e, tune, n):
    both = [turn(e, e["phase"] + 2 * math.pi * ((i * tune) % 1.0)) for i in range(n)]
    return [b[0] for b in both], [b[1] for b in both]


@st.composite
def rational(draw):
    n = draw(st.one_of(st.integers(3, 40), st.integers(3, 40), st.integers(41, 1500)))
    near = st.sampled_from([1, n - 1])  # tunes next to nought and to one
    k = draw(st.one_of(near, st.integers(1, n - 1)).filter(lambda v: math.gcd(v, n) == 1))
    return {"ellipse": draw(ellipses()), "n": n, "k": k, "turns": draw(st.integers(1, 3 if n < 100 else 1)),
            "still": draw(st.sampled_from([False, False, True])), "array": draw(st.booleans())}


def dphi(u, up):
    from xboa.algorithms.tune import DPhiTuneFinder
    finder = DPhiTuneFinder()
    finder.u, finder.up = u, up
    return finder


@FACETS.add(strategy=rational, quick=300, thorough=10000,
            rule="DPhiTuneFinder: points that go round any ellipse a whole number of times give the tune k/n exactly "
                 "with no error, all advances equal (nought where a point comes twice), and the ellipse they are on; asked again the same; data "
                 "unchanged; non-trivial: tune above 1/2 or tilted ellipse")
def whole_turns(case, note):
    import numpy
    e, tune = case["ellipse"], case["k"] / float(case["n"])
    u, up = points(e, tune, case["n"] * case["turns"])
    still = case["still"] and len(u) < 200
    if still:  # every point twice
        u, up = [v for v in u for _ in (0, 1)], [v for v in up for _ in (0, 1)]
    steps = [0.0 if still and i % 2 == 0 else tune for i in range(len(u) - 1)]
    mean = math.fsum(steps) / len(steps)
    keep = list(u), list(up)
    data = (numpy.array(u), numpy.array(up)) if case["array"] else (u, up)
    finder = dphi(*data)
    for again in range(2):
        got = finder.get_tune()
        require_close(got, mean, "tune", 0, 1e-6)
        require_close(finder.tune, mean, "kept tune", 0, 1e-6)
        require_close(finder.tune_error, float(numpy.std(steps)), "tune error", 0, 1e-6)
        require(len(finder.dphi) == len(u) - 1, "%d advances of %d points" % (len(finder.dphi), len(u)))
        for d, want in zip(finder.dphi, steps):
            require_close(d, want, "advance", 0, 1e-6)
        require(len(finder.point_circles) == len(u), "%d circle points" % len(finder.point_circles))
    radii = [math.hypot(p[0], p[1]) for p in finder.point_circles]
    for r in radii:
        require_close(r, math.sqrt(2.0), "circle radius", 1e-6)
    require_close(finder.centre[0], e["x"], "centre", 0, 1e-6 * (1 + abs(e["x"]) + max(map(abs, u))))
    require((list(data[0]), list(data[1])) == keep, "data changed")
    note.label("above half" if tune > 0.5 else "below half", "array" if case["array"] else "list")
    note.nontrivial(tune > 0.5 or abs(e["alpha"]) > 0.5)


@st.composite
def any_tune(draw):
    kind = draw(st.sampled_from(["any", "any", "any", "slow"]))
    if kind == "any":
        return {"ellipse": draw(ellipses()), "tune": draw(gen.smooth(0.03, 0.97, 9400)),
                "n": draw(st.integers(12, 120))}
    tune = draw(gen.smooth(0.001, 0.03, 290))  # next to nought or to one
    return {"ellipse": draw(ellipses()), "tune": tune if draw(st.booleans()) else 1.0 - tune,
            "n": int(draw(gen.smooth(0.8, 1.7, 90)) / tune)}


@FACETS.add(strategy=any_tune, quick=300, thorough=10000,
            rule="DPhiTuneFinder: for any tune the mean advance differs from it by less than a turn over the number "
                 "of advances; the tune kept is the mean and the error the deviation of the advances; the reversed "
                 "motion has tune 1 - nu; non-trivial: not near a simple fraction")
def mean_advance(case, note):
    import numpy
    e, tune, n = case["ellipse"], case["tune"], case["n"]
    angles = sorted((i * tune) % 1.0 for i in range(n))
    gaps = [b - a for a, b in zip(angles, angles[1:] + [angles[0] + 1.0])]
    if max(gaps) > 0.3:
        return  # too sparse for the ellipse to be known
    u, up = points(e, tune, n)
    finder = dphi(u, up)
    got = finder.get_tune()
    require_close(got, tune, "tune", 0, 1.0 / (n - 1))
    require_close(got, math.fsum(finder.dphi) / len(finder.dphi), "mean advance", 1e-9)
    require_close(finder.tune_error, float(numpy.std(finder.dphi)), "deviation", 1e-9, 1e-12)
    require(all(0 <= d <= 1 for d in finder.dphi), "advance out of range")
    back = dphi(u[::-1], up[::-1]).get_tune()
    require_close(back, 1.0 - got, "reversed motion", 1e-6, 1e-6)
    note.nontrivial(all(abs(tune * q - round(tune * q)) > 0.05 for q in range(1, 5)))


@st.composite
def sinusoids(draw):
    return {"n": draw(st.integers(50, 160)), "tune": draw(gen.smooth(0.06, 0.44, 3800)),
            "phase": draw(gen.smooth(0, 6.28, 600)), "amplitude": draw(gen.smooth(0.01, 100, 1000)),
            "edge": draw(st.one_of(st.none(), st.tuples(st.booleans(), gen.smooth(0, 2.5, 250)))),
            "small": draw(gen.smooth(0.06, 0.44, 380)), "ratio": draw(st.sampled_from([0.0, 0.0, 0.1])),
            "up": draw(st.booleans()), "kind": draw(st.sampled_from(["list", "tuple"]))}


@FACETS.add(strategy=sinusoids, quick=600, thorough=12000,
            rule="Both finders raise ValueError without data. FFTTuneFinder: the tune of a sinusoid within a fraction of "
                 "a Fourier bin (0.2; 0.5 with a second, 10 times smaller one; 0.55 or 0.75 close to 0 or 1/2, where the "
                 "mirror image is within a few bins); the spectrum kept is the Fourier transform at the frequencies kept, in "
                 "order; a factor on the data changes nothing; the lists given are left alone; "
                 "non-trivial: tune not on a bin")
def fft(case, note):
    import numpy
    from xboa.algorithms.tune import FFTTuneFinder
    n, tune = case["n"], case["tune"]
    m = n - 1 + n % 2
    edge = case.get("edge")
    if edge:
        case["ratio"] = 0.0
        high, bins = edge
        tune = 0.5 - bins / m if high else (bins + 1.0) / m
    u = [case["amplitude"] * (math.cos(2 * math.pi * tune * i + case["phase"])
                              + case["ratio"] * math.cos(2 * math.pi * case["small"] * i)) for i in range(n)]
    up = [math.sin(i) for i in range(n)] if case["up"] else None
    keep = list(u), None if up is None else list(up)
    make = list if case["kind"] == "list" else tuple
    given = make(u), None if up is None else make(up)
    for empty in (FFTTuneFinder(None, None), dphi(None, None), dphi(u, None), dphi(None, u)):
        try:
            empty.get_tune()
            require(False, "tune of no data")
        except ValueError:
            pass
    finder = FFTTuneFinder(given[0], given[1])
    got = finder.get_tune()
    require((list(given[0]), None if up is None else list(given[1])) == keep, "data changed")
    require_close(got, tune, "tune", 0, ((0.55 if bins >= 0.4 else 0.75) if edge else 0.5 if case["ratio"] else 0.2) / m)
    require_close(finder.fractional_tune, got, "kept tune", 1e-12)
    used = numpy.array(u[:m])
    at = numpy.arange(m)
    require(finder.k_mag_x == sorted(finder.k_mag_x), "frequencies not in order")
    for k in range(m // 2 + 1):
        require(min(abs(x - k / float(m)) for x in finder.k_mag_x) < 1e-9, "frequency %d/%d missing" % (k, m))
    top = case["amplitude"] * m
    for x, y in zip(finder.k_mag_x, finder.k_mag_y):
        want = abs(complex((used * numpy.exp(-2j * math.pi * x * at)).sum()))
        require_close(y, want, "spectrum at %r" % x, 1e-6, 1e-8 * top)
    if case["ratio"] == 0:
        require_close(FFTTuneFinder([4.0 * v for v in u]).get_tune(), got, "scaled data", 1e-9)
    note.label("even" if n % 2 == 0 else "odd", "two" if case["ratio"] else "one", "edge" if edge else "inside")
    note.nontrivial(abs(tune * m - round(tune * m)) > 0.05)


@st.composite
def lattices(draw):
    return {"cos": draw(gen.smooth(-0.95, 0.95, 190)), "beta": draw(gen.smooth(0.5, 20, 400)),
            "alpha": draw(gen.smooth(-2, 2, 400)), "n": draw(st.integers(60, 100)),
            "use": draw(st.one_of(st.none(), st.just("first"), st.just("even"))),
            "x": draw(st.one_of(st.just(0.0), gen.smooth(-2, 2, 80), gen.smooth(-20, 20, 80))), "px": draw(gen.smooth(-20, 20, 80)), "axis": draw(st.sampled_from(["x", "y"])),
            "delta": draw(gen.smooth(0.5, 10, 95)), "sign": draw(st.sampled_from([1, -1]))}


@FACETS.add(strategy=lattices, quick=60, thorough=1500,
            rule="run_tracking of both finders on a linear map about a closed orbit: the reference hit displaced by "
                 "delta is tracked, the hits asked for are used, the tune is the phase advance of the map; the "
                 "reference hit is left alone; non-trivial: a selection of hits")
def tracked(case, note):
    from xboa.algorithms.tune import FFTTuneFinder, DPhiTuneFinder
    from xboa.hit import Hit
    from xboa.tracking import TrackingBase
    axis, paxis = case["axis"], "p" + case["axis"]
    mu = math.acos(case["cos"]) if case["sign"] > 0 else 2 * math.pi - math.acos(case["cos"])
    c, s = math.cos(mu), math.sin(mu)
    a, b = case["alpha"], case["beta"]
    g = (1 + a * a) / b
    reference = Hit.new_from_dict({"pid": -13, "mass": 105.658, "pz": 200.0, axis: case["x"], paxis: case["px"]}, "energy")
    seen = []

    class Ring(TrackingBase):
        def __init__(self):
            pass

        def track_one(self, hit):
            seen.append((hit[axis], hit[paxis]))
            out, x, p = [], hit[axis] - case["x"], hit[paxis] - case["px"]
            for i in range(case["n"]):
                new = hit.deepcopy()
                new[axis], new[paxis] = x + case["x"], p + case["px"]
                out.append(new)
                x, p = (c + a * s) * x + b * s * p, -g * s * x + (c - a * s) * p
            return out

    use = {None: None, "first": list(range(case["n"] - 7)), "even": list(range(0, case["n"], 2))}[case["use"]]
    every = 2 if case["use"] == "even" else 1
    nu = (every * mu / 2 / math.pi) % 1.0
    finder = DPhiTuneFinder()
    finder.run_tracking(axis, paxis, case["delta"], 0.25, reference, Ring(), use)
    m = len(use) if use else case["n"]
    require(len(finder.u) == len(finder.up) == m, "%d points" % len(finder.u))
    require_close(finder.u[0], case["x"] + case["delta"], "displaced", 1e-9, 1e-9)
    require_close(finder.up[0], case["px"] + 0.25, "displaced", 1e-9, 1e-9)
    angles = sorted((i * nu) % 1.0 for i in range(m))
    gap = max(q - p for p, q in zip(angles, angles[1:] + [angles[0] + 1.0]))
    if gap < 0.3:
        require_close(finder.get_tune(), nu, "dphi tune", 0, 1.0 / (m - 1))
    other = FFTTuneFinder()
    other.run_tracking(axis, case["delta"], reference, Ring(), use)
    require(len(other.u) == len(other.up) == m, "%d points" % len(other.u))
    require_close(other.u[0], case["x"] + case["delta"], "displaced", 1e-9, 1e-9)
    require_close(other.up[0], case["px"], "displaced", 1e-9, 1e-9)
    folded = min(nu, 1 - nu)
    if 0.1 < folded < 0.4 and abs(case["x"]) < 0.5 * case["delta"]:
        require_close(other.get_tune(), folded, "fft tune", 0, 1.0 / m)
        note.label("fft")
    require((reference[axis], reference[paxis]) == (case["x"], case["px"]), "reference hit changed")
    note.label("dphi" if gap < 0.3 else "sparse")
    note.nontrivial(use is not None)
