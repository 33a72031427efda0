"""C01: the tables of units, constants and particles agree with physics and with each other."""

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import files

FACETS = Registry()

# name: (dimension, value in SI base of that dimension); written from the definition of each unit
E = 1.60217653e-19
PREFIX = {"": 1.0, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12, "m": 1e-3, "mu": 1e-6, "n": 1e-9, "c": 1e-2}
DEG = 3.14159265358979 / 180
SI = {"": ("one", 1.0)}
for _p in ("mu", "m", "c", "", "k"):
    SI[_p + "m"] = ("length", PREFIX[_p])
for _p in ("n", "mu", "m", ""):
    SI[_p + "s"] = ("time", PREFIX[_p])
for _p in ("", "k", "M", "G", "T"):
    for _s in ("", "/c", "/c2"):
        SI[_p + "eV" + _s] = ("energy" + _s, PREFIX[_p])
SI.update({"Gauss": ("field", 1e-4), "mT": ("field", 1e-3), "T": ("field", 1.0), "kT": ("field", 1e3),
           "V": ("voltage", 1.0), "kV": ("voltage", 1e3), "MV": ("voltage", 1e6), "GV": ("voltage", 1e9),
           "kHz": ("frequency", 1e3), "MHz": ("frequency", 1e6), "GHz": ("frequency", 1e9),
           "GV/m": ("gradient", 1e9), "GV/mm": ("gradient", 1e12),
           "kW": ("power", 1e3), "MW": ("power", 1e6), "GW": ("power", 1e9),
           "echarge": ("charge", E), "Coulomb": ("charge", 1.0)})
for _n in ("degrees", "degree", "deg"):
    SI[_n] = ("angle", DEG)
for _n in ("radians", "radian", "rad"):
    SI[_n] = ("angle", 1.0)
# the internal unit of each dimension, in SI
INTERNAL = {"one": 1.0, "length": 1e-3, "time": 1e-9, "energy": 1e6, "energy/c": 1e6, "energy/c2": 1e6,
            "field": 1e3, "voltage": 1e6, "frequency": 1e9, "gradient": 1e9, "angle": 1.0, "charge": E,
            "power": 1e6 * E / 1e-9}


@FACETS.add(quick=0, thorough=0, exhaustive=True, examples=sorted(SI),
            rule="every documented unit is in the table with its value in internal units (mm, ns, MeV, e, rad, "
                 "kT, MV, GHz), worked out from its definition; non-trivial: all")
def units(case, note):
    import xboa.common as Common
    dim, si = SI[case]
    require(case in Common.units, "no unit", case)
    require_close(Common.units[case], si / INTERNAL[dim], case, 1e-6)
    note.nontrivial(case != "")


@FACETS.add(strategy=lambda: st.tuples(st.sampled_from(sorted(SI)), st.integers(0, 20),
                                       st.sampled_from(["x", "t", "px", "energy", "mass", "bz", "ez", "charge"]),
                                       st.floats(-1e6, 1e6, allow_nan=False)),
            quick=200, thorough=5000,
            rule="a hit value set in internal units and read by Bunch in two units of one dimension differs by the "
                 "ratio of the units; non-trivial: ratio not 1")
def conversions(case, note):
    import xboa.common as Common
    from xboa.bunch import Bunch
    from xboa.hit import Hit
    unit, k, var, value = case
    dim = SI[unit][0]
    others = sorted(u for u in SI if SI[u][0] == dim)
    other = others[k % len(others)]
    bunch = Bunch.new_from_hits([Hit.new_from_dict({var: value})])
    a, = bunch.list_get_hit_variable([var], [unit])[0]
    b, = bunch.list_get_hit_variable([var], [other])[0]
    require_close(a * SI[unit][1], b * SI[other][1], "%s in %s and in %s" % (var, unit, other), 1e-6, 1e-280)
    require_close(a * Common.units[unit], value, "%s in %s" % (var, unit), 1e-12, 1e-300)
    note.label(dim)
    note.nontrivial(other != unit and value != 0)


NAMES = {-11: "e+", 11: "e-", 13: "mu-", -13: "mu+", 211: "pi+", -211: "pi-", 321: "K+", -321: "K-", 2212: "proton",
         -2212: "antiproton", 2112: "neutron", -2112: "antineutron", 22: "photon", 111: "pi0",
         12: "electron neutrino", -12: "electron antineutrino", 14: "muon neutrino", -14: "muon antineutrino",
         130: "K0L", 310: "K0S", 311: "K0", -311: "anti-K0", 3122: "lambda", -3122: "antilambda",
         1000010020: "deuterium", 1000010030: "tritium", 1000020030: "3He", 1000020040: "4He"}
PIDS = sorted(set(files.CHARGE) | set(NAMES))


@FACETS.add(quick=0, thorough=0, exhaustive=True, examples=PIDS,
            rule="each particle has the mass and name of its kind, particle and antiparticle have opposite charge "
                 "and equal mass, and the codes of icool and mars map to it and back; non-trivial: all")
def particles(case, note):
    import xboa.common as Common
    pid = case
    if pid in NAMES:
        require(Common.pdg_pid_to_name.get(pid) == NAMES[pid], "name", pid, Common.pdg_pid_to_name.get(pid))
    if abs(pid) in files.MASS:
        require_close(Common.pdg_pid_to_mass[abs(pid)], files.MASS[abs(pid)], "mass %d" % pid, 1e-9)
    if pid in files.CHARGE:
        require(abs(pid) in Common.pdg_pid_to_mass and pid in Common.pdg_pid_to_name, "no mass or name", pid)
        require(Common.pdg_pid_to_charge[pid] == files.CHARGE[pid], "charge", pid, Common.pdg_pid_to_charge[pid])
    if pid in Common.pdg_pid_to_charge and -pid in Common.pdg_pid_to_charge:
        require(Common.pdg_pid_to_charge[pid] == -Common.pdg_pid_to_charge[-pid], "charges of", pid)
    for name, table, back in (("icool", Common.icool_pid_to_pdg, Common.pdg_pid_to_icool),
                              ("mars", Common.mars_pid_to_pdg, Common.pdg_pid_to_mars)):
        ours = files.ICOOL if name == "icool" else files.MARS
        if pid in ours and pid != 0:
            code = ours[pid]
            require(table.get(code) == pid, name, "code", code, "is", table.get(code), "not", pid)
            require(back.get(pid) == code, name, "code of", pid, "is", back.get(pid), "not", code)
    note.nontrivial()


@FACETS.add(quick=0, thorough=0, exhaustive=True, examples=["icool", "mars"] + ["mars %d" % i for i in range(1, 41) if i != 37],
            rule="every code of a particle in an icool or mars file stands for a particle of the tables, or for none "
                 "(0); every mars code can be read; the way back gives the code; non-trivial: all")
def codes(case, note):
    import xboa.common as Common
    if case.startswith("mars "):
        require(int(case[5:]) in Common.mars_pid_to_pdg, "mars code", case[5:], "cannot be read")
        pid = Common.mars_pid_to_pdg[int(case[5:])]
        require(pid == 0 or abs(pid) in Common.pdg_pid_to_mass, "mars code", case[5:], "is", pid)
    else:
        table, back = (Common.icool_pid_to_pdg, Common.pdg_pid_to_icool) if case == "icool" else \
            (Common.mars_pid_to_pdg, Common.pdg_pid_to_mars)
        for code, pid in table.items():
            require(pid == 0 or abs(pid) in Common.pdg_pid_to_mass, case, "code", code, "is", pid)
            require(pid == 0 or back[pid] == code, case, "code", code, "is", pid, "which is", back[pid])
        require(sorted(back) == sorted(set(table.values())), case, "has other particles on the way back")
    note.nontrivial()


@FACETS.add(quick=0, thorough=0, exhaustive=True, examples=["c_light", "pi"],
            rule="physical constants have their accepted value; non-trivial: all")
def constants(case, note):
    import xboa.common as Common
    require_close(Common.constants[case], {"c_light": 299.792458, "pi": 3.141592653589793}[case], case, 1e-8)
    note.nontrivial()
