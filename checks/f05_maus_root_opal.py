"""F05: MAUS ROOT trees (ROOT's side is a stand-in) and OPAL probe files."""
import contextlib
import io
import itertools
import random
import sys
import types

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, files

FACETS = Registry()
VIRTUAL, PRIMARY, STEP = "maus_root_virtual_hit", "maus_root_primary", "maus_root_step"
POINT, TOF = "maus_root_scifi_trackpoint", "maus_root_scifi_and_tof"
UNKNOWN = 999888
_PID = st.sampled_from([-13, 13, 211, 11, 2212, -211, 22, UNKNOWN])
_V = gen.smooth(-500, 500)


class Thing(object):
    """Answers GetName() or name() with values[name]"""
    def __init__(self, **values):
        self.values = values

    def __getattr__(self, name):
        key = name[3:] if name.startswith("Get") else name
        if key in self.__dict__.get("values", {}):
            value = self.values[key]
            return lambda: value
        raise AttributeError(name)


def vec(d, names):
    return Thing(x=d[names[0]], y=d[names[1]], z=d[names[2]])


class Data(object):
    def __init__(self):
        self.spill = None

    def GetSpill(self):
        return self.spill


class Tree(object):
    def __init__(self, spills):
        self.spills, self.data = spills, None

    def SetBranchAddress(self, name, data):
        require(name == "data", "branch", name)
        self.data = data

    def GetEntries(self):
        return len(self.spills)

    def GetEntry(self, i):
        require(0 <= i < len(self.spills), "entry", i)
        self.data.spill = self.spills[i]
        return 1


FILES = {}


class File(object):
    def __init__(self, name, mode="READ"):
        self.spills = FILES[name.rsplit("/")[-1]]

    def Get(self, name):
        return Tree(self.spills) if name == "Spill" else None

    def Close(self):
        pass


def install():
    """Before xboa.hit is imported: what says that MAUS is there, and the part of ROOT that MAUS adds."""
    sys.modules["libMausCpp"] = types.ModuleType("libMausCpp")
    import ROOT
    ROOT.MAUS = types.SimpleNamespace(Data=Data)
    ROOT.TFile = File
    import xboa.hit
    require(VIRTUAL in xboa.hit.Hit.file_types(), "no root formats with MAUS", xboa.hit.Hit.file_types())


_KEYS = ("x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz", "proper_time",
         "path_length")
_HIT = st.tuples(st.integers(0, 2 ** 20), _PID)       # values are grown from the seed
_POINT = st.tuples(st.integers(0, 2 ** 20))
_TIMES = st.tuples(st.lists(_V, max_size=2), st.lists(_V, max_size=2))


def _some(what):
    """Mostly one or two, at times none"""
    return st.one_of(st.lists(what, min_size=1, max_size=3), st.lists(what, min_size=1, max_size=2), st.lists(what, max_size=1))


_MC = st.fixed_dictionaries({"primary": _HIT, "virtual": _some(_HIT),
                             "tracks": _some(st.tuples(_PID, st.integers(0, 9), _some(_HIT)))})
_RECON = st.fixed_dictionaries({"tracks": _some(st.tuples(gen.smooth(0, 1, 20), _some(_POINT))),
                                "space": _TIMES, "slab": _TIMES, "digit": _TIMES})
_SPILL = st.fixed_dictionaries({"number": st.integers(0, 10 ** 6), "mc": _some(_MC),
                                "recon": _some(_RECON)})
_SPILLS = st.one_of(_some(_SPILL), st.lists(_SPILL, min_size=1, max_size=3))
_TYPES = [PRIMARY, VIRTUAL, STEP, POINT, TOF]


def grow(spills):
    """The values of each hit and track point, from its seed"""
    def value(rng):
        return rng.choice([rng.uniform(-500, 500), rng.uniform(-500, 500), float(rng.randint(-9, 9)), 0.])

    def hit(seed, pid):
        rng = random.Random(seed)
        d = dict((k, value(rng)) for k in _KEYS)
        d.update(pid=pid, station=rng.randint(0, 9), track=rng.randint(0, 9), mass=rng.uniform(0, 1000),
                 charge=rng.choice([-1., 0., 1., 2.]), extra=rng.uniform(0, 500))
        return d

    def point(seed):
        rng = random.Random(seed)
        d = dict((k, value(rng)) for k in ("x", "y", "z", "px", "py", "pz"))
        d.update((k, rng.randint(0, 10)) for k in ("tracker", "station", "plane"))
        return d

    for spill in spills:
        for m in spill["mc"]:
            m["primary"] = hit(*m["primary"])
            m["virtual"] = [hit(*v) for v in m["virtual"]]
            m["tracks"] = [(pid, track, [hit(*s) for s in steps]) for pid, track, steps in m["tracks"]]
        for r in spill["recon"]:
            r["tracks"] = [(p, [point(*x) for x in points]) for p, points in r["tracks"]]


def mass_of(pid):
    return files.MASS.get(abs(pid), 0.)


def charge_of(pid):
    return float(files.CHARGE.get(pid, 0.))


def energy_of(d):
    return (mass_of(d["pid"]) ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5 + d["extra"]


def particle(d):
    return dict(Position=vec(d, "xyz"), Momentum=vec(d, ("px", "py", "pz")), ParticleId=d["pid"], Time=d["t"],
                BField=vec(d, ("bx", "by", "bz")), EField=vec(d, ("ex", "ey", "ez")), Spin=vec(d, ("sx", "sy", "sz")),
                StationId=d["station"], TrackId=d["track"], Mass=d["mass"], Charge=d["charge"], Energy=energy_of(d),
                ProperTime=d["proper_time"], PathLength=d["path_length"])


def times(pair, name, value):
    return Thing(**{"TOF0" + name: [Thing(**{value: t}) for t in pair[0]],
                    "TOF1" + name: [Thing(**{value: t}) for t in pair[1]]})


def root_spill(spill):
    mc = [Thing(Primary=Thing(**particle(m["primary"])), VirtualHits=[Thing(**particle(v)) for v in m["virtual"]],
                Tracks=[Thing(ParticleId=pid, TrackId=track, Steps=[Thing(**particle(s)) for s in steps])
                        for pid, track, steps in m["tracks"]]) for m in spill["mc"]]
    recon = []
    for r in spill["recon"]:
        tracks = [Thing(P_value=p, scifitrackpoints=[
            Thing(pos=vec(d, "xyz"), mom=vec(d, ("px", "py", "pz")), tracker=d["tracker"], station=d["station"],
                  plane=d["plane"]) for d in points]) for p, points in r["tracks"]]
        tof = Thing(TOFEventSpacePoint=times(r["space"], "SpacePointArray", "Time"),
                    TOFEventSlabHit=times(r["slab"], "SlabHitArray", "RawTime"),
                    TOFEventDigit=times(r["digit"], "DigitArray", "LeadingTime"))
        recon.append(Thing(SciFiEvent=Thing(scifitracks=tracks), TOFEvent=tof))
    return Thing(SpillNumber=spill["number"], MCEvents=mc, ReconEvents=recon)


def expected(spill, kind, cut=-1., slabs=True, digits=True):
    """The hits that a spill holds: dicts of what a hit must have"""
    found = []
    for event, m in enumerate(spill["mc"]):
        base = {"spill": spill["number"], "event_number": event}
        if kind == PRIMARY:
            d = m["primary"]
            want = dict(base, mass=mass_of(d["pid"]), charge=charge_of(d["pid"]), energy=energy_of(d), pid=d["pid"])
            want.update((k, d[k]) for k in "xyzt")
            p, p_want = (d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5, (want["energy"] ** 2 - want["mass"] ** 2) ** 0.5
            if p > 1.:
                want.update((k, d[k] * p_want / p) for k in ("px", "py", "pz"))
            found.append(want)
        elif kind == VIRTUAL:
            for d in m["virtual"]:
                want = dict(base, pid=d["pid"], station=d["station"], particle_number=d["track"], mass=d["mass"],
                            charge=d["charge"], sx=None, sy=None, sz=None)
                want.update((k, d[k]) for k in _KEYS if k[0] != "s")
                want["energy"] = (d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5
                found.append(want)
        elif kind == STEP:
            for pid, track, steps in m["tracks"]:
                for i, d in enumerate(steps):
                    want = dict(base, pid=pid, station=i, particle_number=track, mass=mass_of(pid),
                                charge=charge_of(pid))
                    want.update((k, d[k]) for k in _KEYS)
                    want["energy"] = (want["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5
                    found.append(want)
    if kind in (POINT, TOF):
        for event, r in enumerate(spill["recon"]):
            t = None
            if kind == TOF:
                t = [b - a for b in r["space"][1] for a in r["space"][0]]
                for use, name in ((slabs, "slab"), (digits, "digit")):
                    if not t and use and r[name][0] and r[name][1]:
                        t = [sum(r[name][1]) / len(r[name][1]) - sum(r[name][0]) / len(r[name][0])]
                if not t:
                    continue
            for i, (p, points) in enumerate(r["tracks"]):
                if cut > 0. and p < cut:
                    continue
                for d in points:
                    want = {"spill": spill["number"], "event_number": event, "particle_number": i,
                            "station": 90000 + 100 * d["tracker"] + 10 * d["station"] + d["plane"]}
                    want.update((k, d[k]) for k in ("x", "y", "z", "px", "py", "pz"))
                    if t:
                        want["t"] = t[0]
                    found.append(want)
    return found


def same_hits(hits, wants, kind):
    from xboa.hit import Hit
    require(len(hits) == len(wants), kind, "hits", len(hits), "expected", len(wants))
    base = Hit()
    base = dict((k, base.get(k)) for k in gen.DOUBLES + gen.INTS)
    for hit, want in zip(hits, wants):
        derived = kind == PRIMARY
        for k in base:
            if derived and k in ("px", "py", "pz") and k not in want:
                continue
            value = want[k] if want.get(k) is not None else base[k]
            loose = derived and k in ("px", "py", "pz")
            require_close(hit.get(k), value, "%s of %s" % (k, kind), 1e-7 if loose else 1e-11,
                          1e-4 if loose else 1e-9 * (k == "energy"))


def factory(tree, kind, *args):
    import xboa.hit.factory as f
    cls = f.MausRootReconHitFactory if kind in (POINT, TOF) else f.MausRootHitFactory
    return cls(tree, kind, *args)


TESTS = {"none": None, "x": lambda hit: hit["x"] > 0, "never": lambda hit: False,
         "odd": lambda hit: hit["particle_number"] % 2 == 1}


def passes(name, want):
    return {"none": True, "x": want["x"] > 0, "never": False, "odd": want.get("particle_number", 0) % 2 == 1}[name]


@FACETS.add(strategy=lambda: st.tuples(_SPILLS, st.sampled_from(_TYPES), st.sampled_from([0, 0, 0, 1, 2, 3]), st.sampled_from(sorted(TESTS) + ["none", "none"]),
                                       st.sampled_from(["make", "generator", "list"])),
            setup=install, quick=300, thorough=10000,
            rule="a factory on a tree gives, from the entry on, exactly the hits of each spill in order, with the "
                 "values that MAUS has, mass and charge of the particle type (0 if not in the tables), energy on the "
                 "mass shell (momentum, for primaries), those that pass the test only, then BadEventError for good; "
                 "non-trivial: two hits")
def tree(case, note):
    from xboa.hit import Hit, BadEventError
    spills, kind, entry, test, how = case
    grow(spills)
    gen.clear_weights()
    root = Tree([root_spill(s) for s in spills])
    want = [w for s in spills[entry:] for w in expected(s, kind)]
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "list" and kind in (PRIMARY, VIRTUAL, STEP):
            hits = Hit.new_list_from_maus_root(kind, root, entry)
        else:
            want = [w for w in want if passes(test, w)]
            fac = factory(root, kind, entry, TESTS[test])
            if how == "make":
                hits = []
                for w in want:
                    hits.append(fac.make_hit())
                for i in range(2):
                    try:
                        fac.make_hit()
                    except BadEventError:
                        continue
                    require(False, "a hit after the last")
            else:
                hits = list(fac.hit_generator())
    same_hits(hits, want, kind)
    note.label(kind)
    note.nontrivial(len(want) > 1)


@FACETS.add(strategy=lambda: st.tuples(_SPILLS, st.sampled_from([-1., 0., 0.3, 0.8]), st.booleans(), st.booleans(),
                                       st.sampled_from([POINT, TOF]), st.sampled_from([None, None, "tracker", "station", "plane"]),
                                       st.sampled_from([-1, 11, 1000])),
            setup=install, quick=200, thorough=8000,
            rule="track points of tracks below the p value cut are left out; the time of flight is that of the first "
                 "space points, else of the mean slab hits, else of the mean digits, as far as asked for, and events "
                 "without any give no hit; a tracker, station or plane out of range is refused with ValueError; "
                 "non-trivial: two hits")
def recon(case, note):
    from xboa.hit.factory import MausRootReconHitFactory as Factory
    spills, cut, slabs, digits, kind, broken, bad = case
    grow(spills)
    gen.clear_weights()
    read = [r for s in spills for r in s["recon"] for p, points in r["tracks"] if (cut <= 0 or p >= cut) for _ in points]
    if broken:
        points = [d for s in spills for r in s["recon"] for p, points in r["tracks"] if cut <= 0 or p >= cut for d in points]
        if points:
            points[-1][broken] = bad
    fac = factory(Tree([root_spill(s) for s in spills]), kind)
    fac.sf_p_value_cut, fac.fallback_on_slabs, fac.fallback_on_digits = cut, slabs, digits
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            hits = list(fac.hit_generator())
        except ValueError:
            require(broken and read, "refused")
            note.label("refused")
            return
    require(not (broken and read), "a station out of range was accepted")
    want = [w for s in spills for w in expected(s, kind, cut, slabs, digits)]
    same_hits(hits, want, kind)
    note.nontrivial(len(want) > 1)


@FACETS.add(strategy=lambda: st.tuples(st.lists(_SPILLS, min_size=1, max_size=2), st.one_of(st.none(), st.lists(st.sampled_from(_TYPES), min_size=1, max_size=3)),
                                       st.integers(-1, 8), st.sampled_from(sorted(TESTS)), st.booleans()),
            setup=install, quick=200, thorough=6000,
            rule="Bunch.read_maus_root_file gives the hits of each type in turn that pass the test, the first "
                 "number_of_hits of them; new_from_read_builtin those of every file of the name; writing these formats is "
                 "refused with IOError; non-trivial: two hits")
def bunch(case, note):
    from xboa.bunch import Bunch
    spills, kinds, number, test, by_list = case
    [grow(s) for s in spills]
    gen.clear_weights()
    FILES.clear()
    for i, s in enumerate(spills):
        FILES["maus_%d.root" % i] = [root_spill(x) for x in s]
        open("maus_%d.root" % i, "w").close()
    wants = [[(k, w) for k in (kinds or [PRIMARY, VIRTUAL, STEP, POINT, TOF]) for s in x for w in expected(s, k) if passes(test, w)]
             for x in spills]
    with contextlib.redirect_stdout(io.StringIO()):
        if by_list or kinds is None:
            hits = Bunch.read_maus_root_file("maus_0.root", number, list_of_maus_types=kinds, test_function=TESTS[test])
            want = wants[0] if number < 0 else wants[0][:number]
            if number < 0 and kinds is None:
                by_type = [PRIMARY, VIRTUAL, STEP, POINT, TOF]
                order = {k: [w for w in want if w[0] == k] for k in by_type}
                # any order of the types will do
                require(len(hits) == len(want), "hits", len(hits), len(want))
                for perm in itertools.permutations(by_type):
                    try:
                        check(hits, [w for k in perm for w in order[k]])
                        break
                    except Exception:
                        continue
                else:
                    check(hits, want)
            elif kinds is not None:
                check(hits, want)
            else:
                require(len(hits) == min(number, len(wants[0])), "hits", len(hits))
            note.nontrivial(len(want) > 1)
            return
        kind = kinds[0]
        each = [[(kind, w) for s in x for w in expected(s, kind) if passes(test, w)] for x in spills]
        one = len(spills) == 1
        got = Bunch.new_from_read_builtin(kind, "maus_%s.root" % ("0" if one else "[01]"), TESTS[test],
                                          number if one else -1)
        try:
            Bunch.new_from_hits([gen.make_hit({"x": 1.})]).hit_write_builtin(kind, "maus_out.root")
        except IOError:
            pass
        else:
            require(False, "wrote", kind)
    hits = list(got)
    if one:
        check(hits, each[0] if number < 0 else each[0][:number])
    else:
        try:
            check(hits, each[0] + each[1])
        except Exception:
            check(hits, each[1] + each[0])
    note.nontrivial(sum(len(e) for e in each) > 1)


def check(hits, wants):
    require(len(hits) == len(wants), "hits", len(hits), "expected", len(wants))
    for hit, (kind, want) in zip(hits, wants):
        same_hits([hit], [want], kind)


_PROBES = ["PROBE1", "PROBE2", "H1", "RING", "RING2"]
_LINE = st.one_of(
    st.fixed_dictionaries(dict([(k, _V) for k in ("x", "y", "z", "px", "py", "pz", "t")] + [
        ("probe", st.sampled_from(_PROBES)), ("event", st.integers(0, 10 ** 6)), ("turn", st.integers(1, 20)),
        ("ints", st.booleans())])),
    st.sampled_from(["", "# comment line", "PROBE1 1 2 3", "PROBE1 1 2 3 4 5 6 7 8 9 10", "a b c d e f g h i"]))


@FACETS.add(strategy=lambda: st.tuples(st.lists(_LINE, max_size=10), st.sampled_from([-13, 13, 2212, 211, -211, 11, UNKNOWN, -2212]),
                                       st.one_of(st.none(), st.permutations(_PROBES)), st.lists(st.sampled_from(_PROBES), max_size=2)),
            quick=300, thorough=10000,
            rule="each line of ten words is a hit of the particle type asked for: position and time as they stand, momentum in units "
                 "of the mass, energy on the mass shell, event number; the station is that of probe and turn, distinct for "
                 "distinct (probe, turn) when all probes were given, in the order of the probes within a turn; lines of "
                 "ignored probes or another number of words are BadEventError each and the end EOFError; an unknown type is "
                 "refused with KeyError; non-trivial: two hits")
def opal(case, note):
    from xboa.hit import BadEventError
    from xboa.hit.factory import OpalHitFactory
    lines, pid, given, ignore = case
    gen.clear_weights()
    text = []
    for line in lines:
        if isinstance(line, dict):
            number = str if line["ints"] else (lambda n: "%.1f" % n)
            line = " ".join([line["probe"]] + [repr(line[k]) for k in ("x", "y", "z", "px", "py", "pz")] + [
                number(line["event"]), str(line["turn"]), repr(line["t"])])
        text.append(line + "\n")
    probes = dict((p, i) for i, p in enumerate(given or []))
    known = dict(probes)
    try:
        fac = OpalHitFactory(pid, probes, ignore, io.StringIO("".join(text)))
    except KeyError:
        require(pid == UNKNOWN, "refused", pid)
        note.label("refused")
        return
    require(pid != UNKNOWN, "an unknown particle type was accepted")
    count, stations = 0, {}
    for line in lines:
        try:
            hit = fac.make_hit()
        except BadEventError:
            require(not isinstance(line, dict) or line["probe"] in ignore, "refused", line)
            continue
        require(isinstance(line, dict) and line["probe"] not in ignore, "made a hit of", line)
        mass = files.MASS[abs(pid)]
        want = dict((k, line[k]) for k in "xyzt")
        want.update((k, line[k] * mass) for k in ("px", "py", "pz"))
        want.update(pid=pid, mass=mass, charge=float(files.CHARGE[pid]), event_number=line["event"],
                    energy=mass * (1. + line["px"] ** 2 + line["py"] ** 2 + line["pz"] ** 2) ** 0.5)
        for k, v in want.items():
            require_close(hit[k], v, k, 1e-11, 1e-9)
        known.setdefault(line["probe"], len(known))
        require(hit["station"] == known[line["probe"]] + len(known) * (line["turn"] - 1), "station", hit["station"],
                "of", line["probe"], line["turn"], known)
        if given:
            require(stations.setdefault(hit["station"], (line["probe"], line["turn"])) == (line["probe"], line["turn"]),
                    "two probes or turns share station", hit["station"])
        count += 1
    require(probes == known, "the probes found", probes, known)
    for i in range(2):
        try:
            fac.make_hit()
        except EOFError:
            continue
        require(False, "read past the end")
    note.nontrivial(count > 1)
