"""Independent description of the file formats and particle tables, for the checks of file i/o."""
import math

# pdg id -> mass in MeV/c2, by |pid|; the particles the project knows
MASS = {0: 0., 11: 0.510998910, 12: 0., 13: 105.6583668, 14: 0., 22: 0., 111: 134.9766, 211: 139.57018,
        321: 493.667, 2112: 939.56536, 2212: 938.271996, 130: 497.614, 310: 497.614, 311: 497.614,
        3122: 1115.683, 1000010020: 1876.1239, 1000010030: 2809.432, 1000020030: 2809.41346, 1000020040: 3728.4001}
CHARGE = {0: 0, 11: -1, 12: 0, 13: -1, 14: 0, 22: 0, 111: 0, 211: 1, 321: 1, 2112: 0, 2212: 1, 130: 0, 310: 0,
          311: 0, 3122: 0, -11: 1, -12: 0, -13: 1, -14: 0, -211: -1, -321: -1, -2112: 0, -2212: -1, -311: 0, -3122: 0,
          1000010020: 1, 1000010030: 1, 1000020030: 2, 1000020040: 2}
ICOOL = {0: 0, -11: 1, -13: 2, 211: 3, 321: 4, 2212: 5, 11: -1, 13: -2, -211: -3, -321: -4, -2212: -5}
MARS = {2212: 1, 2112: 2, 211: 3, -211: 4, 321: 5, -321: 6, -13: 7, 13: 8, 22: 9, 11: 10, -11: 11, -2212: 12,
        111: 13, 14: 18, -14: 19, 12: 20, -12: 21, 130: 22, 310: 23, 311: 24, -311: 25, 3122: 26, -3122: 27,
        -2112: 31, 1000010020: 14, 1000010030: 15, 1000020030: 16, 1000020040: 17}
MARS[0] = 40
MARS_NONE = (28, 29, 30, 32, 33, 34, 35, 36, 38, 39, 40)   # codes without a particle here

LENGTH = {"mm": 1., "cm": 10., "m": 1000.}
C_LIGHT = 299.792458
_S, _M, _G, _T = 1e9, 1e3, 1e3, 1e-3
_POS = [("x", _M), ("y", _M), ("z", _M)]
_MOM = [("px", _G), ("py", _G), ("pz", _G)]
_SPIN = [("sx", 1.), ("sy", 1.), ("sz", 1.)]
INTS = ("event_number", "particle_number", "pid", "status", "station")
COLUMNS = {
    "icool_for009": [("event_number", 1), ("particle_number", 1), ("pid", 1), ("status", 1), ("station", 1),
                     ("t", _S)] + _POS + _MOM + [("bx", _T), ("by", _T), ("bz", _T), ("local_weight", 1.),
                                                 ("ex", 1.), ("ey", 1.), ("ez", 1.), ("", 1)] + _SPIN,
    "icool_for003": [("event_number", 1), ("particle_number", 1), ("pid", 1), ("status", 1), ("t", _S),
                     ("local_weight", 1.)] + _POS + _MOM + _SPIN,
    "g4beamline_bl_track_file": [("x", "L"), ("y", "L"), ("z", "L"), ("px", 1.), ("py", 1.), ("pz", 1.), ("t", 1.),
                                 ("pid", 1), ("event_number", 1), ("particle_number", 1), ("", 1),
                                 ("local_weight", 1.)],
    "mars_1": [("event_number", 1), ("pid", 1), ("x", 1.), ("y", 1.), ("z", 1.)] + _MOM +
              [("energy", _G), ("ct", 10.), ("local_weight", 1.)],
}
COLUMNS["g4beamline_bl_track_file_2"] = COLUMNS["g4beamline_bl_track_file"] + [("", 1)] * 3
FORMATS = sorted(COLUMNS)
HEADER_LINES = {"icool_for009": 3, "icool_for003": 2, "mars_1": 0}   # g4beamline: lines that begin with #


def columns(fmt, length="mm"):
    return [(k, LENGTH[length] if u == "L" else u) for k, u in COLUMNS[fmt]]


def file_pid(fmt, pid):
    """the number the format has for the particle; None: it has none"""
    if fmt.startswith("icool"):
        return ICOOL.get(pid)
    if fmt.startswith("mars"):
        return MARS.get(pid)
    return pid


def expected(fmt, d, defaults):
    """What a hit with the values d should hold after it was written and read in the format."""
    keys = [k for k, _ in COLUMNS[fmt] if k]
    want = dict(defaults)
    for k in keys:
        if k == "ct":
            want["t"] = d["t"]
        elif k != "energy":
            want[k] = d[k]
    want["mass"] = MASS.get(abs(d["pid"]), 0.)
    want["charge"] = float(CHARGE.get(d["pid"], 0))
    want["energy"] = math.sqrt(want["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2)
    return want
