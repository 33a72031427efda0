"""Shared generators (plain JSON data) and helpers for the checks."""
import math

from hypothesis import strategies as st

DOUBLES = ["x", "y", "z", "t", "px", "py", "pz", "energy", "bx", "by", "bz", "ex", "ey",
           "ez", "sx", "sy", "sz", "path_length", "proper_time", "e_dep", "charge", "mass",
           "local_weight"]
INTS = ["spill", "event_number", "particle_number", "station", "status", "pid"]
ALIASES = {"eventNumber": "event_number", "particleNumber": "particle_number"}
IDS = ["spill", "event_number", "particle_number"]
# mass of each |pdg id| as printed in the project's table (MeV/c^2)
MASS = {11: 0.51099891, 13: 105.6583668, 22: 0.0, 211: 139.57018, 321: 493.667,
        2112: 939.56536, 2212: 938.271996}
C_LIGHT = 299.792458  # mm/ns


def fl(lo, hi):
    """Floats in [lo, hi]: round numbers as well as awkward ones."""
    span = hi - lo
    return st.one_of(
        st.floats(lo, hi, allow_nan=False, allow_infinity=False),
        st.integers(0, 1000).map(lambda i: min(hi, max(lo, lo + span * i / 1000.0))))


def smooth(lo, hi, steps=4096):
    """Floats on a fine grid in [lo, hi]: never tiny, cheap to shrink."""
    return st.integers(0, steps).map(lambda i: lo + (hi - lo) * i / steps)


any_double = st.one_of(
    st.floats(allow_nan=False), st.sampled_from([0.0, -0.0, 1e-300, -1e300, 1.5, -2.25]),
    st.integers(-10**6, 10**6).map(float))
int32 = st.one_of(st.integers(-20, 20), st.integers(-2**31, 2**31 - 1),
                  st.sampled_from([2**31 - 1, -2**31, 1000020040, -13, 2212]))
small_id = st.integers(0, 3)


def same(a, b):
    """bitwise-equal floats up to nan payload; exact for ints"""
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b


ALL_PIDS = (-13, 13, 211, 2212, 11, -11, -211, 321, -321, 2112, -2212)


@st.composite
def particle(draw, pids=ALL_PIDS, pz=(50.0, 400.0), pt=100.0, pos=500.0,
             fields=False, ids=True, neg_pz=False):
    """A particle on mass shell."""
    pid = draw(st.sampled_from(list(pids)))
    m = MASS[abs(pid)]
    d = {"pid": pid, "mass": m,
         "x": draw(smooth(-pos, pos)), "y": draw(smooth(-pos, pos)),
         "z": draw(smooth(-2 * pos, 2 * pos)), "t": draw(smooth(-100., 100.)),
         "px": draw(smooth(-pt, pt)), "py": draw(smooth(-pt, pt)),
         "pz": draw(smooth(*pz))}
    if neg_pz and draw(st.booleans()):
        d["pz"] *= -1
    d["energy"] = math.sqrt(m * m + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
    d["charge"] = {-13: 1., 13: -1., 211: 1., -211: -1., 2212: 1., -2212: -1., 11: -1., -11: 1., 321: 1.,
                   -321: -1.}.get(pid, 0.)
    if ids:
        d["spill"] = draw(st.integers(0, 3))
        d["event_number"] = draw(st.integers(0, 50))
        d["particle_number"] = draw(st.integers(0, 3))
        d["station"] = draw(st.integers(0, 5))
    if fields:
        for k in ("bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz"):
            d[k] = draw(smooth(-3, 3))
    return d


def clear_weights():
    """A fresh weight context: no weight set by an earlier case survives."""
    from xboa.core import Hitcore, WeightContext
    Hitcore.set_weight_context(WeightContext())


def make_hit(d):
    from xboa.hit import Hit
    return Hit.new_from_dict(d)


def make_bunch(hits):
    from xboa.bunch import Bunch
    return Bunch.new_from_hits([make_hit(d) for d in hits])


# ---- whole beams from a compact description (fast to draw, shrinks by n and seed) ----
_PIDS = (-13, 13, 211, 2212, 11)
beam_spec = st.fixed_dictionaries({
    "n": st.integers(2, 30), "seed": st.integers(0, 10**6), "pid": st.sampled_from(_PIDS),
    "pz": smooth(80, 400, 64), "sx": smooth(1, 60, 32), "sp": smooth(1, 30, 32),
    "st": smooth(0.1, 4, 32), "se": smooth(1, 20, 32), "mix": smooth(0, 1, 16),
    "off": smooth(-50, 50, 32), "weights": st.sampled_from(["one", "local", "global", "both", "zeros"]),
})


def beam(spec, min_n=0):
    """List of on-shell hit dicts; weights are local_weight, and global_weight if asked for."""
    import random
    rng = random.Random(spec["seed"])
    n = max(spec["n"], min_n)
    m = MASS[abs(spec["pid"])]
    q = {-13: 1., 13: -1., 211: 1., 2212: 1., 11: -1.}[spec["pid"]]
    a = [[rng.uniform(-1, 1) * spec["mix"] if i != j else 1.0 for j in range(6)] for i in range(6)]
    sig = [spec["sx"], spec["sp"], spec["sx"] * 1.3, spec["sp"] * 0.8, spec["st"], spec["se"]]
    hits = []
    for ev in range(n):
        u = [rng.gauss(0, 1) for _ in range(6)]
        v = [sig[i] * sum(a[i][j] * u[j] for j in range(6)) for i in range(6)]
        d = {"x": v[0] + spec["off"], "px": v[1] + spec["off"] * 0.1, "y": v[2] - spec["off"] * 0.5,
             "py": v[3], "t": v[4] + spec["off"] * 0.05, "z": 1000. + spec["off"],
             "pz": max(spec["pz"] + v[5], 20.0), "pid": spec["pid"], "mass": m, "charge": q,
             "event_number": ev, "station": 1, "bz": 1e-3 * rng.choice([-1, 1, 2])}
        d["z"] += rng.gauss(0, 1) * spec["sx"]
        d["energy"] = math.sqrt(m * m + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
        lw = rng.choice([0.25, 0.5, 1.0, 1.5, 3.0])
        gw = rng.choice([0.5, 1.0, 2.0])
        if spec["weights"] in ("local", "both"):
            d["local_weight"] = lw
        if spec["weights"] in ("global", "both"):
            d["global_weight"] = gw
        if spec["weights"] == "zeros" and n > 14 and rng.random() < 0.3:
            d["local_weight"] = 0.0
        hits.append(d)
    return hits


def weights_of(hits):
    return [d.get("local_weight", 1.0) * d.get("global_weight", 1.0) for d in hits]


def beam_bunch(hits):
    """Bunch of the hits of beam(), in a fresh weight context."""
    from xboa.bunch import Bunch
    clear_weights()
    return Bunch.new_from_hits([make_hit(d) for d in hits])
