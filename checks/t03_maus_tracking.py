"""T03: MAUSTracking tells MAUS and the user the same particles (MAUS is a stand-in that records)."""
import json
import pickle
import sys
import types

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import files, gen

FACETS = Registry()


class Maus(object):
    """What the stand-in was told, and what it answers."""
    alive = False
    births = []
    asked = []
    plan = []


def install():
    """Before xboa is imported: maus_cpp as far as MAUSTracking uses it."""
    maus, glob, sim = types.ModuleType("maus_cpp"), types.ModuleType("maus_cpp.globals"), types.ModuleType("maus_cpp.simulation")

    def birth(cards):
        require(isinstance(cards, str) and not Maus.alive, "birth of %r while alive %r" % (cards, Maus.alive))
        Maus.alive = True
        Maus.births.append(json.loads(cards))

    def death():
        require(Maus.alive, "death of what is not alive")
        Maus.alive = False

    def track_particles(document):
        primaries = json.loads(document)
        Maus.asked.append(primaries)
        events = []
        for i, primary in enumerate(primaries):
            event = {"primary": primary["primary"]}
            virtual = Maus.plan[i % len(Maus.plan)] if Maus.plan else None
            if virtual is not None:
                event["virtual_hits"] = virtual
            events.append(event)
        return json.dumps(events)

    glob.has_instance, glob.birth, glob.death = (lambda: Maus.alive), birth, death
    sim.track_particles = track_particles
    maus.globals, maus.simulation = glob, sim
    sys.modules.update({"maus_cpp": maus, "maus_cpp.globals": glob, "maus_cpp.simulation": sim})


@st.composite
def virtual_hits(draw):
    hit = draw(gen.particle(neg_pz=True))
    return {"particle_id": hit["pid"], "time": hit["t"], "track_id": draw(st.integers(1, 5)),
            "station_id": draw(st.integers(0, 50)),
            "position": dict((k, hit[k]) for k in "xyz"),
            "momentum": dict((k, hit["p" + k]) for k in "xyz")}


@st.composite
def runs(draw):
    cards = st.one_of(st.none(), st.just({}), st.dictionaries(st.sampled_from("abc"), st.integers(0, 9), max_size=3))
    calls = st.lists(st.one_of(st.just("one"), st.just("pickle"), st.integers(0, 4)), min_size=1, max_size=5)
    return {"cards": draw(cards), "as_text": draw(st.booleans()), "seed": draw(st.integers(0, 1000)),
            "calls": draw(calls), "before": draw(st.booleans()),
            "hits": [draw(gen.particle(neg_pz=True)) for _ in range(4)],
            "plan": draw(st.lists(st.one_of(st.none(), st.lists(virtual_hits(), max_size=3)), max_size=3))}


CHARGE = files.CHARGE


def near(hit, want, what):
    for key, value in want.items():
        require_close(hit[key], value, "%s %s" % (what, key), 1e-9, 1e-9)


@FACETS.add(strategy=runs, setup=install, quick=200, thorough=8000,
            rule="in any history of track_one, track_many and pickling: each primary has the position, momentum, time, "
                 "energy and pid of its hit and its own seed, counting up; the lists returned hold the primary and "
                 "the virtual hits in order, with mass and charge of their particle, on mass shell, numbered by "
                 "event, track, station and by a spill that counts up; last is what was returned; datacards are "
                 "given to MAUS once per object, after ending what ran before; non-trivial: two calls")
def track(case, note):
    import xboa.common.config as config
    from xboa.tracking import MAUSTracking
    gen.clear_weights()
    config.PACKAGES["maus"] = True
    Maus.alive, Maus.births, Maus.asked, Maus.plan = case["before"], [], [], case["plan"]
    cards = case["cards"]
    given = json.dumps(cards) if cards is not None and case["as_text"] else cards
    tracking = MAUSTracking(given, case["seed"])
    births = [] if cards is None else [cards]
    require(Maus.births == births and Maus.alive == (case["before"] or bool(births)), "datacards %r" % Maus.births)
    require(tracking.last == [], "last at first")
    seed, spill = case["seed"], 0
    hits = [gen.make_hit(h) for h in case["hits"]]
    before = [[h[k] for k in gen.DOUBLES + gen.INTS] for h in hits]
    for call in case["calls"]:
        if call == "pickle":
            last = tracking.last
            tracking = pickle.loads(pickle.dumps(tracking))
            births = births + births[:1]
            require(Maus.births == births, "datacards after pickling: %r" % Maus.births)
            require(len(tracking.last) == len(last), "last after pickling")
            continue
        some = hits[:1] if call == "one" else hits[:call]
        Maus.asked = []
        got = [tracking.track_one(some[0])] if call == "one" else tracking.track_many(some)
        require(len(Maus.asked) == 1 and len(Maus.asked[0]) == len(some), "asked for %r" % Maus.asked)
        require(len(got) == len(some) and tracking.last == got, "%d lists of %d hits" % (len(got), len(some)))
        for i, (primary, hit, out) in enumerate(zip(Maus.asked[0], case["hits"], got)):
            p = primary["primary"]
            flat = {"x": p["position"]["x"], "y": p["position"]["y"], "z": p["position"]["z"],
                    "px": p["momentum"]["x"], "py": p["momentum"]["y"], "pz": p["momentum"]["z"],
                    "t": p["time"], "energy": p["energy"], "pid": p["particle_id"]}
            near(flat, dict((k, hit[k]) for k in flat), "primary")
            require(p["random_seed"] == seed, "seed %r, want %r" % (p["random_seed"], seed))
            seed += 1
            virtual = (case["plan"][i % len(case["plan"])] if case["plan"] else None) or []
            require(len(out) == 1 + len(virtual), "%d hits, want %d" % (len(out), 1 + len(virtual)))
            ids = {"event_number": i, "spill": spill}
            near(out[0], dict(flat, mass=gen.MASS[abs(hit["pid"])], charge=CHARGE[hit["pid"]], particle_number=1,
                              station=-1, **ids), "primary hit")
            for v, h in zip(virtual, out[1:]):
                mass = gen.MASS[abs(v["particle_id"])]
                m = v["momentum"]
                energy = (mass ** 2 + m["x"] ** 2 + m["y"] ** 2 + m["z"] ** 2) ** 0.5
                near(h, dict(ids, x=v["position"]["x"], y=v["position"]["y"], z=v["position"]["z"], px=m["x"],
                             py=m["y"], pz=m["z"], t=v["time"], pid=v["particle_id"], mass=mass, energy=energy,
                             charge=CHARGE[v["particle_id"]], particle_number=v["track_id"],
                             station=v["station_id"]), "virtual hit")
        spill += 1
    require([[h[k] for k in gen.DOUBLES + gen.INTS] for h in hits] == before, "hits changed")
    Maus.alive = False
    note.label("datacards" if births else "no datacards", "pickled" if "pickle" in case["calls"] else "not pickled")
    note.nontrivial(spill > 1)


@FACETS.add(strategy=lambda: st.integers(0, 3), quick=4, thorough=4,
            rule="without MAUS, MAUSTracking raises ImportError; non-trivial: all")
def without(case, note):
    from xboa.tracking import MAUSTracking
    try:
        MAUSTracking(None, case)
    except ImportError:
        pass
    else:
        require(False, "tracks without MAUS")
    note.nontrivial(True)
