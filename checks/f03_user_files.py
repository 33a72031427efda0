"""F03: user-defined formats: columns, units, separators and order are those asked for."""
import io
import itertools

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, files, ref

FACETS = Registry()
UNITS = {"x": {"mm": 1., "cm": 10., "m": 1e3, "km": 1e6, "mum": 1e-3, "": 1.}, "y": {"mm": 1., "m": 1e3},
         "z": {"m": 1e3, "cm": 10.}, "t": {"ns": 1., "s": 1e9, "mus": 1e3, "ms": 1e6},
         "px": {"MeV/c": 1., "GeV/c": 1e3, "eV/c": 1e-6}, "py": {"keV/c": 1e-3, "MeV/c": 1.},
         "pz": {"TeV/c": 1e6, "MeV/c": 1., "": 1.}, "energy": {"MeV": 1., "GeV": 1e3, "eV": 1e-6, "keV": 1e-3},
         "mass": {"MeV/c2": 1., "GeV/c2": 1e3}, "bx": {"T": 1e-3, "kT": 1., "Gauss": 1e-7}, "by": {"mT": 1e-6},
         "bz": {"T": 1e-3}, "ex": {"GV/m": 1.}, "ey": {"GV/mm": 1e3}, "ez": {"GV/m": 1., "": 1.}, "sx": {"": 1.},
         "sy": {"": 1.}, "sz": {"": 1.}, "path_length": {"m": 1e3}, "proper_time": {"ns": 1.}, "e_dep": {"MeV": 1.},
         "charge": {"": 1., "echarge": 1.}, "local_weight": {"": 1.}, "global_weight": {"": 1.},
         "spill": {"": 1}, "event_number": {"": 1}, "particle_number": {"": 1}, "station": {"": 1},
         "status": {"": 1}, "pid": {"": 1}, "eventNumber": {"": 1}, "particleNumber": {"": 1}, "": {"": 1}}
DERIVED = {"p": {"GeV/c": 1e3, "MeV/c": 1.}, "r": {"m": 1e3, "mm": 1.}, "x'": {"": 1., "rad": 1.}, "pt": {"MeV/c": 1.},
           "kinetic_energy": {"MeV": 1., "GeV": 1e3}, "ct": {"m": 1e3, "mm": 1.}, "l_kin": {"": 1.},
           "weight": {"": 1.}, "r_squared": {"": 1.}}
ALIAS = {"eventNumber": "event_number", "particleNumber": "particle_number"}
INTS = ("spill", "event_number", "particle_number", "station", "status", "pid", "eventNumber", "particleNumber")


def _ask(table):
    return st.sampled_from(sorted(table)).flatmap(lambda k: st.tuples(st.just(k), st.sampled_from(sorted(table[k]))))


_READ = st.lists(_ask(UNITS), min_size=1, max_size=12, unique_by=lambda a: a[0] and ALIAS.get(a[0], a[0]))
_WRITE = st.lists(st.one_of(_ask(UNITS), _ask(DERIVED)), min_size=1, max_size=8, unique_by=lambda a: a[0])
_PART = gen.particle(fields=True, neg_pz=True)
_HITS = st.lists(st.builds(lambda d, lw, gw, st_: dict(d, local_weight=lw, status=st_, global_weight=gw), _PART,
                           st.sampled_from([0., .5, 1., 2.25]), st.sampled_from([1., .5, 3.]), st.integers(-2, 9)),
                 min_size=1, max_size=6)
ALL_UNITS = dict(itertools.chain(UNITS.items(), DERIVED.items()))


def value_of(hit, d, key):
    if key == "l_kin":
        return d["x"] * d["py"] - d["y"] * d["px"]
    if key in DERIVED and key != "weight":
        return ref.derived(d, key)
    return hit.get(ALIAS.get(key, key))


@FACETS.add(strategy=lambda: st.tuples(_HITS, _WRITE, st.sampled_from([" ", "@", ", ", "\t", "; "]),
                                       st.sampled_from([None, "x", "-pz", "station", "weight"])),
            quick=500, thorough=15000,
            rule="hit_write_user writes one line per hit, the columns in the order and units asked for, each followed "
                 "by the separator, sorted by the comparator (stable) or in bunch order without one; the bunch "
                 "keeps its order; '' columns are 0; non-trivial: a unit that is not 1 and two hits")
def writing(case, note):
    from xboa.bunch import Bunch
    dicts, ask, sep, order = case
    gen.clear_weights()
    bunch = Bunch.new_from_hits([gen.make_hit(d) for d in dicts])
    pairs = list(zip(bunch, dicts))
    keys, units = [a[0] for a in ask], dict(ask)
    sign, var = (-1, order[1:]) if order and order[0] == "-" else (1, order)
    kw = {}
    if order:
        kw["comparator"] = lambda a, b: sign * ((a[var] > b[var]) - (a[var] < b[var]))
        pairs.sort(key=lambda p: sign * p[0][var])
    before = [h for h in bunch]
    out = io.StringIO()
    bunch.hit_write_user(list(keys), dict(units), out, sep, **kw)
    require(all(a is b for a, b in zip(before, bunch)) and len(before) == len(bunch), "bunch reordered")
    lines = out.getvalue().split("\n")
    require(lines.pop() == "" and len(lines) == len(pairs), "lines", len(lines))
    single = io.StringIO()
    for line, (hit, d) in zip(lines, pairs):
        require(line.endswith(sep), "no separator at the end", line)
        words = line[:-len(sep)].split(sep)
        require(len(words) == len(keys), "columns", words)
        for word, key in zip(words, keys):
            want = 0 if key == "" else value_of(hit, d, key) / ALL_UNITS[key][units[key]]
            if key in INTS:
                require(word == str(int(want)), key, word, want)
            else:
                require_close(float(word), want, key, 1e-11, {"kinetic_energy": 1e-9, "l_kin": 1e-6}.get(key, 1e-300))
        hit.write_user_formatted(keys, units, single, sep)
    require(single.getvalue() == out.getvalue(), "bunch and hits write differently")
    note.nontrivial(len(pairs) > 1 and any(ALL_UNITS[k][u] != 1 for k, u in ask))


@FACETS.add(strategy=lambda: st.tuples(_HITS, _READ, st.integers(0, 3), st.sampled_from(["", "energy", "pz", "p"]),
                                       st.sampled_from(["bunch", "hit", "factory"]), st.integers(-1, 6),
                                       st.booleans(), st.booleans()), quick=500, thorough=15000,
            rule="text in a user format reads as its values in internal units whatever the order of the columns; mass "
                 "and charge come from the particle unless given; the mass shell variable is set; skipped lines, "
                 "bad lines, test function and number of hits select; non-trivial: two hits or more")
def reading(case, note):
    from xboa.bunch import Bunch
    from xboa.hit import Hit, BadEventError
    from xboa.hit.factory import UserHitFactory
    dicts, ask, skip, shell, how, number, testing, bad_line = case
    if not any(k == "pid" for k, _ in ask):
        ask = ask + [("pid", "")]
    gen.clear_weights()
    keys, units = [a[0] for a in ask], dict(ask)
    for i, d in enumerate(dicts):
        d["spill"] = i          # an id each, so that global weights do not collide
        if not any(k == "spill" for k in keys):
            d["global_weight"] = 1.0
        if i % 2:               # what is given stands, whatever the particle
            d["charge"] += 1.
            d["mass"] *= 1.25
    lines = ["anything 1 2"] * (skip if how == "bunch" else 0)
    for i, d in enumerate(dicts):
        if bad_line and i == 1 and how == "bunch":
            lines.append(" ".join(["1"] * (len(keys) + 1)))
        lines.append("  ".join("0" if k == "" else "%d" % d[ALIAS.get(k, k)] if k in INTS else
                               "%.17g" % (d.get(k, 1.5) / UNITS[k][units[k]]) for k in keys))
    handle = io.StringIO("\n".join(lines) + "\n")
    default = Hit()
    if how == "bunch":
        kw = {"number_of_hits": number}
        if testing:
            kw["test_function"] = lambda hit: hit["pid"] != 13
        got = Bunch.new_from_read_user(list(keys), dict(units), handle, skip, **kw)
        dicts = [d for d in dicts if not testing or d["pid"] != 13]
        dicts = dicts[:number] if number >= 0 else dicts
        shell = ""
    elif how == "hit":
        got = [Hit.new_from_read_user(list(keys), dict(units), handle, shell) for _ in dicts]
    else:
        factory = UserHitFactory(list(keys), dict(units), handle, shell)
        got = list(factory.hit_generator())
    require(len(got) == len(dicts), "hits", len(got), "expected", len(dicts))
    for hit, d in zip(got, dicts):
        want = {k: default.get(k) for k in gen.DOUBLES + gen.INTS}
        for k in keys:
            k = ALIAS.get(k, k)
            if k:
                want[k] = d.get(k, 1.5)
        if "mass" not in keys:
            want["mass"] = files.MASS[abs(d["pid"])]
        if "charge" not in keys:
            want["charge"] = files.CHARGE[d["pid"]]
        p2 = want["px"] ** 2 + want["py"] ** 2 + want["pz"] ** 2
        e2 = want["energy"] ** 2 - want["mass"] ** 2
        if shell == "energy":
            want["energy"] = (p2 + want["mass"] ** 2) ** 0.5
        for k, v in want.items():
            if shell in ("pz", "p") and k in ("px", "py", "pz"):
                continue
            if k != "global_weight" or ("spill" in keys):
                require_close(hit.get(k), v, "%s of %s" % (k, keys), 1e-11, 1e-12 * (k == "energy"))
        if shell in ("pz", "p") and e2 > p2 - want["pz"] ** 2 + 1 and p2 > 1:
            got_p2 = hit["px"] ** 2 + hit["py"] ** 2 + hit["pz"] ** 2
            require_close(got_p2, e2, "mass shell " + shell, 1e-9, 1e-6)
            if shell == "pz":
                require_close(hit["px"], want["px"], "px", 1e-12)
    note.label(how, "shell " + shell)
    note.nontrivial(len(dicts) > 1)


@FACETS.add(strategy=lambda: st.tuples(_READ, st.integers(0, 12), st.sampled_from(["no unit", "bad unit", "bad key"]),
                                       st.sampled_from(["furlong", "MM", "mm ", "GeV/c3"]),
                                       st.sampled_from(["bad", "r", "X", "pt", "x "])), quick=200, thorough=4000,
            rule="a format with a variable that cannot be set, or a dimensional variable without a unit or with an "
                 "unknown one, is refused with KeyError before anything is read; non-trivial: always")
def refused(case, note):
    from xboa.hit.factory import UserHitFactory
    ask, at, how, unit, key = case
    floats = [i for i, a in enumerate(ask) if a[0] not in INTS and a[0] != ""]
    if how != "bad key" and not floats:
        ask, floats = ask + [("x", "mm")], [len(ask)]
    if len(set(a[0] for a in ask)) < len(ask):
        return
    keys, units = [a[0] for a in ask], dict(ask)
    handle = io.StringIO("1 2 3\n")
    if how == "bad key":
        keys.insert(at % (len(keys) + 1), key)
        units[key] = ""
    elif how == "no unit":
        del units[keys[floats[at % len(floats)]]]
    else:
        units[keys[floats[at % len(floats)]]] = unit
    try:
        UserHitFactory(keys, units, handle, "")
    except KeyError:
        pass
    else:
        require(False, "accepted", keys, units)
    require(handle.tell() == 0, "read from the file")
    note.nontrivial()
