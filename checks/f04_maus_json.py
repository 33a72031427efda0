"""F04: maus json documents: hits to trees, trees to files, files to hits."""
import contextlib
import io
import json

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, files

FACETS = Registry()
_PID = st.sampled_from([-13, 13, 211, 11, 2212, -211])
_V = gen.smooth(-500, 500)
_HIT = st.fixed_dictionaries(dict([(k, _V) for k in (
    "x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "proper_time", "path_length")] + [
        ("event_number", st.integers(0, 4)), ("particle_number", st.integers(0, 3)), ("station", st.integers(0, 5)),
        ("pid", _PID), ("mass_scale", st.sampled_from([1., 1., 1.01])), ("local_weight", gen.smooth(0, 2, 8))]))
_HITS = st.lists(_HIT, min_size=1, max_size=8)
VIRTUAL, PRIMARY, SPECIAL = "maus_json_virtual_hit", "maus_json_primary", "maus_json_special_virtual_hit"


def build(d):
    d = dict(d)
    d["mass"] = files.MASS[abs(d["pid"])] * d.pop("mass_scale")
    d["charge"] = float(files.CHARGE[d["pid"]])
    d["energy"] = (d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5
    return d


def groups(items, key):
    found = {}
    for d in items:
        found.setdefault(d[key], []).append(d)
    return list(found.values())


def vec(d, names):
    return {"x": d[names[0]], "y": d[names[1]], "z": d[names[2]]}


def virtual(d):
    return {"position": vec(d, "xyz"), "momentum": vec(d, ("px", "py", "pz")), "b_field": vec(d, ("bx", "by", "bz")),
            "e_field": vec(d, ("ex", "ey", "ez")), "station_id": d["station"], "particle_id": d["pid"],
            "track_id": d["particle_number"], "time": d["t"], "mass": d["mass"], "charge": d["charge"],
            "proper_time": d["proper_time"], "path_length": d["path_length"]}


def special(d):
    return {"position": vec(d, "xyz"), "momentum": vec(d, ("px", "py", "pz")), "particle_id": d["pid"],
            "track_id": d["particle_number"], "time": d["t"], "mass": d["mass"], "charge": d["charge"],
            "path_length": d["path_length"], "energy_deposited": d["proper_time"]}


def primary(d):
    return {"position": vec(d, "xyz"), "momentum": vec(d, ("px", "py", "pz")), "particle_id": d["pid"],
            "time": d["t"], "energy": d["energy"]}


SEEN = {VIRTUAL: ["x", "y", "z", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "t", "mass", "charge", "station",
                  "pid", "particle_number", "proper_time", "path_length"],
        SPECIAL: ["x", "y", "z", "px", "py", "pz", "t", "mass", "charge", "pid", "particle_number", "path_length"],
        PRIMARY: ["x", "y", "z", "t", "pid"]}


def check_hit(hit, d, kind, spill, event, base):
    want = dict(base)
    want.update((k, d[k]) for k in SEEN[kind])
    want.update(spill=spill, event_number=event, energy=d["energy"])
    if kind == SPECIAL:
        want["e_dep"] = d["proper_time"]
    if kind == PRIMARY:
        want["mass"], want["charge"] = files.MASS[abs(d["pid"])], float(files.CHARGE[d["pid"]])
        p = (d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5
        if p > 1:       # the momentum keeps its direction and takes the size that the energy gives
            p_want = max(d["energy"] ** 2 - want["mass"] ** 2, 0.) ** 0.5
            want.update((k, d[k] * p_want / p) for k in ("px", "py", "pz"))
        else:
            [want.pop(k) for k in ("px", "py", "pz")]
    for k, v in want.items():
        require_close(hit.get(k), v, "%s of %s" % (k, kind), 1e-7 if kind == PRIMARY and k[0] == "p" else 1e-11,
                      1e-4 if kind == PRIMARY and k in ("px", "py", "pz") else 1e-9 * (k == "energy"))


def defaults():
    from xboa.hit import Hit
    hit = Hit()
    return {k: hit.get(k) for k in gen.DOUBLES + gen.INTS}


@FACETS.add(strategy=lambda: st.tuples(_HITS, st.sampled_from([VIRTUAL, PRIMARY]), st.booleans()), quick=400,
            thorough=12000,
            rule="the tree holds the hits of each event in a spill and of each particle in a mc_event, groups and hits "
                 "in order of appearance, with the maus names of the variables; more than one primary of a particle "
                 "is refused with IOError; the file has one document a line, numbered, and reads back as the "
                 "hits; nothing written is changed; non-trivial: two spills or mc_events")
def write_and_read(case, note):
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    dicts, kind, by_bunch = case
    gen.clear_weights()
    dicts = [build(d) for d in dicts]
    hits = [gen.make_hit(d) for d in dicts]
    before = [[h.get(k) for k in gen.DOUBLES + gen.INTS] for h in hits]
    spills = [groups(spill, "particle_number") for spill in groups(dicts, "event_number")]
    single = all(len(track) == 1 for spill in spills for track in spill)
    try:
        tree = Hit.get_maus_tree(list(hits), kind)
    except IOError:
        require(kind == PRIMARY and not single, "refused")
        note.label("refused")
        return
    require(kind == VIRTUAL or single, "two primaries of a particle were accepted")
    if kind == VIRTUAL:
        want = [{"mc_events": [{"virtual_hits": [virtual(d) for d in track]} for track in spill]} for spill in spills]
    else:
        want = [{"mc_events": [{"primary": primary(track[0])} for track in spill]} for spill in spills]
    require(tree == want, "tree", json.dumps(tree)[:500], "expected", json.dumps(want)[:500])
    with contextlib.redirect_stdout(io.StringIO()):
        if by_bunch:
            Bunch.new_from_hits(hits).hit_write_builtin(kind, "maus.json")
        else:
            Hit.write_list_builtin_formatted(list(hits), kind, "maus.json")
        docs = [json.loads(line) for line in open("maus.json")]
        require(len(docs) == len(spills), "documents", len(docs))
        for i, (doc, spill) in enumerate(zip(docs, want)):
            require(doc["mc_events"] == spill["mc_events"] and doc["maus_event_type"] == "Spill" and
                    doc["spill_number"] == i, "document", i)
        bunch = Bunch.new_from_read_builtin(kind, "maus.json")
        by_list = Hit.new_list_from_maus_json(kind, open("maus.json"))
    flat = [(d, i, j) for i, spill in enumerate(spills) for j, track in enumerate(spill) for d in track]
    require(len(bunch) == len(flat) and len(by_list) == len(flat), "hits", len(bunch), len(by_list), len(flat))
    base = defaults()
    for got in bunch, by_list:
        for hit, (d, spill, event) in zip(got, flat):
            check_hit(hit, d, kind, spill, event, base)
    require([[h.get(k) for k in gen.DOUBLES + gen.INTS] for h in hits] == before, "writing changed a hit")
    note.nontrivial(len(flat) > 1 and (len(spills) > 1 or len(spills[0]) > 1))


_EVENT = st.fixed_dictionaries({"virtual": st.lists(_HIT, max_size=3), "special": st.lists(_HIT, max_size=2),
                                "primary": _HIT})
_DOC = st.one_of(
    st.fixed_dictionaries({"type": st.just("Spill"), "spill_number": st.integers(0, 1000),
                           "events": st.lists(_EVENT, max_size=3), "extra": st.booleans()}),
    st.fixed_dictionaries({"type": st.sampled_from(["JobHeader", "RunFooter", "none", "empty"])}))


@FACETS.add(strategy=lambda: st.tuples(st.lists(_DOC, min_size=1, max_size=5),
                                       st.lists(st.sampled_from([VIRTUAL, PRIMARY, SPECIAL]), min_size=1, max_size=3),
                                       st.integers(-1, 8), st.sampled_from(["read", "bunch", "factory"]),
                                       st.booleans()), quick=400, thorough=12000,
            rule="documents that are not spills, or spills without data, are passed over; every hit of every type asked "
                 "for is read, type by type, in the order of the documents, with the number of the spill and the "
                 "index of the event; a number of hits and a test function select; after the last hit "
                 "BadEventError; non-trivial: two spills with data")
def documents(case, note):
    from xboa.bunch import Bunch
    from xboa.hit import BadEventError
    from xboa.hit.factory import MausJsonHitFactory
    docs, kinds, number, how, testing = case
    gen.clear_weights()
    out, flat = [], {VIRTUAL: [], PRIMARY: [], SPECIAL: []}
    with_data = 0
    for doc in docs:
        if doc["type"] != "Spill":
            out.append({"none": {"mc_events": []}, "empty": {"maus_event_type": "Spill", "spill_number": 3}}.get(
                doc["type"], {"maus_event_type": doc["type"], "mc_events": [{"virtual_hits": []}]}))
            continue
        spill = {"maus_event_type": "Spill", "spill_number": doc["spill_number"], "mc_events": []}
        if doc["extra"]:
            spill["recon_events"] = [{"tof": None}]
        with_data += bool(doc["events"])
        for i, event in enumerate(doc["events"]):
            v, s, p = [build(d) for d in event["virtual"]], [build(d) for d in event["special"]], build(event["primary"])
            spill["mc_events"].append({"virtual_hits": [virtual(d) for d in v], "primary": primary(p),
                                       "special_virtual_hits": [special(d) for d in s]})
            flat[VIRTUAL] += [(d, doc["spill_number"], i) for d in v]
            flat[SPECIAL] += [(d, doc["spill_number"], i) for d in s]
            flat[PRIMARY].append((p, doc["spill_number"], i))
        out.append(spill)
    with open("docs.json", "w") as f:
        f.write("".join(json.dumps(d) + "\n" for d in out))
    want = []
    if how == "read":
        want = [w + (k,) for k in kinds for w in flat[k]]
        want = want[:number] if number >= 0 else want
        got = Bunch.read_maus_json_file("docs.json", number, list(kinds))
    elif how == "bunch":
        want = [w + (kinds[0],) for w in flat[kinds[0]]]
        want = want[:number] if number >= 0 else want
        kw = {}
        if testing:
            kw["test_function"] = lambda hit: hit["pid"] > 0
            want = [w for w in want if w[0]["pid"] > 0]
        with contextlib.redirect_stdout(io.StringIO()):
            got = Bunch.new_from_read_builtin(kinds[0], "docs.json", number_of_hits=number, **kw)
    else:
        want = [w + (kinds[0],) for w in flat[kinds[0]]]
        factory = MausJsonHitFactory(open("docs.json"), kinds[0])
        if testing:
            got = list(factory.hit_generator())
        else:
            got = []
            while True:
                try:
                    got.append(factory.make_hit())
                except BadEventError:
                    break
        try:
            factory.make_hit()
        except BadEventError:
            pass
        else:
            require(False, "a hit after the last")
    require(len(got) == len(want), "hits", len(got), "expected", len(want))
    base = defaults()
    for hit, (d, spill, event, kind) in zip(got, want):
        check_hit(hit, d, kind, spill, event, base)
    note.label(how, *kinds)
    note.nontrivial(with_data > 1 and len(want) > 1)


@FACETS.add(strategy=lambda: st.tuples(st.text(max_size=20), _HITS, st.sampled_from(["mars_1", "icool_for009", VIRTUAL])),
            quick=100, thorough=2000,
            rule="an unknown maus type is refused with KeyError, a single hit cannot be written in a maus format "
                 "(IOError); non-trivial: always")
def refused(case, note):
    from xboa.hit.factory import MausJsonHitFactory
    name, dicts, _ = case
    if name not in (VIRTUAL, PRIMARY, SPECIAL, "maus_virtual_hit", "maus_primary"):
        try:
            MausJsonHitFactory(io.StringIO(""), name)
        except KeyError:
            pass
        else:
            require(False, "accepted", name)
    for kind in VIRTUAL, PRIMARY:
        out = io.StringIO()
        try:
            gen.make_hit(build(dicts[0])).write_builtin_formatted(kind, out)
        except IOError:
            pass
        else:
            require(False, "single hit written")
        require(out.getvalue() == "", "text written")
    note.nontrivial()
