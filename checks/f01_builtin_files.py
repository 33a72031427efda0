"""F01: what is written in a built-in format is what is read back."""
import glob
import io
import os

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, files

FACETS = Registry()
_VALUE = st.one_of(gen.smooth(-1000, 1000), st.floats(-1e6, 1e6, allow_subnormal=False),
                   st.sampled_from([0.0, 1e-12, -1e-7, 123456.789e5, 1 / 3.]))
_ID = st.one_of(st.integers(-3, 40), st.integers(-2**31, 2**31 - 1), st.sampled_from([1000000, 2**31 - 1]))
_PID = st.sampled_from(sorted(set(files.MARS) | set(files.ICOOL)) + [0, -14, 3222, -999, 99])
_FMT = st.sampled_from(files.FORMATS)
FLOATS = ["x", "y", "z", "t", "px", "py", "pz", "bx", "by", "bz", "ex", "ey", "ez", "sx", "sy", "sz",
          "local_weight", "path_length", "proper_time", "e_dep"]
_HIT = st.fixed_dictionaries(dict([(k, _VALUE) for k in FLOATS] + [
    ("event_number", _ID), ("particle_number", _ID), ("status", _ID), ("station", st.integers(-2, 4)),
    ("spill", st.integers(0, 2)), ("pid", _PID)]))
# a common sort of hit: known to every format
_PLAIN = st.builds(lambda d, pid: dict(d, pid=pid), _HIT, st.sampled_from([-13, 13, 11, -11, 211, -211, 2212]))
_ANY = st.one_of(_PLAIN, _PLAIN, _HIT)


def build(d):
    d = dict(d)
    d["mass"] = files.MASS.get(abs(d["pid"]), 0.)
    d["charge"] = float(files.CHARGE.get(d["pid"], 0))
    d["energy"] = (d["mass"] ** 2 + d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2) ** 0.5
    return gen.make_hit(d), d


def defaults():
    from xboa.hit import Hit
    hit = Hit()
    return {k: hit.get(k) for k in gen.DOUBLES + gen.INTS}


def check_hit(hit, want, what):
    for k, v in want.items():
        got = hit.get(k)
        if k in gen.INTS:
            require(got == v, what, k, "is", got, "not", v)
        else:
            require_close(got, v, "%s %s" % (what, k), 1e-11, 1e-300 if k != "energy" else 1e-11)


def state(hit):
    return [hit.get(k) for k in gen.DOUBLES + gen.INTS]


class Full:
    """a file on a full disk"""
    def __init__(self, room):
        self.room = room

    def write(self, text):
        self.room -= len(text)
        if self.room < 0:
            raise OSError(28, "No space left on device")


def known(fmt, pid):
    return files.file_pid(fmt, pid) is not None


@FACETS.add(strategy=lambda: st.tuples(_FMT, st.lists(_ANY, min_size=1, max_size=4),
                                       st.sampled_from(["mm", "mm", "cm", "m"])), quick=500, thorough=20000,
            rule="each hit written by itself gives one line whose columns are the variables of the format in its "
                 "units; reading the lines gives the hits back (mass and charge from the particle, energy on shell, "
                 "the rest at the defaults), then EOFError; the hit written is unchanged, also if it "
                 "cannot be written or the disk is full; non-trivial: two or more hits")
def one_by_one(case, note):
    from xboa.hit import Hit
    fmt, hits, unit = case
    gen.clear_weights()
    out = io.StringIO()
    written = []
    Hit.set_g4bl_unit(unit)
    try:
        for d in hits:
            hit, d = build(d)
            before = state(hit)
            at = out.tell()
            if not known(fmt, d["pid"]):
                try:
                    hit.write_builtin_formatted(fmt, out)
                except Exception:
                    note.label("not in the format")
                else:
                    require(False, "pid", d["pid"], "was written as", fmt)
                out.seek(at)
                out.truncate()
            else:
                hit.write_builtin_formatted(fmt, out)
                written.append(d)
            require(state(hit) == before, "writing changed the hit")
            try:
                hit.write_builtin_formatted(fmt, Full(len(hits) * 3 - 3))
            except Exception:
                pass
            else:
                require(False, "a hit was written to a full disk")
            require(state(hit) == before, "writing to a full disk changed the hit")
        text = out.getvalue()
        lines = text.split("\n")
        require(lines[-1] == "" and len(lines) == len(written) + 1, "number of lines", len(lines))
        for line, d in zip(lines, written):
            words = line.split()
            cols = files.columns(fmt, unit)
            require(len(words) == len(cols), "number of columns", len(words))
            for word, (key, scale) in zip(words, cols):
                want = {"": 0, "pid": files.file_pid(fmt, d["pid"]), "ct": d["t"] * files.C_LIGHT}.get(key)
                want = d[key] if want is None else want
                if key == "pid" and fmt == "mars_1" and d["pid"] == 0:   # several codes mean no particle
                    require(int(word) in files.MARS_NONE, "column pid", word)
                    continue
                require_close(float(word), want / scale, "column " + key, 1e-12, 1e-300)
                require(key not in files.INTS or "." not in word, "integer column", key, word)
        handle = io.StringIO(text)
        base = defaults()
        for d in written:
            check_hit(Hit.new_from_read_builtin(fmt, handle), files.expected(fmt, d, base), "read back")
        try:
            Hit.new_from_read_builtin(fmt, handle)
        except EOFError:
            pass
        else:
            require(False, "a hit from an empty file")
    finally:
        Hit.set_g4bl_unit("mm")
    note.label(fmt)
    note.nontrivial(len(written) > 1)


@FACETS.add(strategy=lambda: st.tuples(_FMT, st.lists(_ANY, min_size=0, max_size=12),
                                       st.sampled_from([None, "a title", "", "run 3: x y"]),
                                       st.sampled_from(["bunch", "hits", "dict"]),
                                       st.sampled_from(["all", "test", "number", "both"]), st.integers(0, 14)),
            quick=400, thorough=15000,
            rule="a file written from a bunch, list of hits or dict of bunches reads back as the hits sorted by "
                 "station, keeping the order inside a station, without hits the format has no particle for; a "
                 "test function and a number of hits select the first hits that pass; the header holds the "
                 "comment; nothing written is changed; non-trivial: two stations")
def whole_file(case, note):
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    fmt, dicts, comment, how, select, number = case
    gen.clear_weights()
    Hit.set_g4bl_unit("mm")
    pairs = [build(d) for d in dicts]
    hits = [p[0] for p in pairs]
    before = [state(h) for h in hits]
    name = "out.dat"
    kw = {} if comment is None else {"user_comment": comment}
    order = pairs
    if how == "hits":
        Hit.write_list_builtin_formatted(list(hits), fmt, name, **kw)
    elif how == "bunch":
        bunch = Bunch.new_from_hits(hits)
        inside = list(bunch)
        bunch.hit_write_builtin(fmt, name, **kw)
        require(len(bunch) == len(hits) and all(a is b for a, b in zip(bunch, inside)), "bunch changed by writing")
        require([state(h) for h in bunch] == before, "a hit changed by writing")
    else:
        parts = {"a": hits[::2], "b": hits[1::2]}
        order = pairs[::2] + pairs[1::2]
        Bunch.hit_write_builtin_from_dict(dict((k, Bunch.new_from_hits(v)) for k, v in parts.items()), fmt, name, **kw)
    require([state(h) for h in hits] == before, "writing changed a hit")
    text = open(name).read()
    if fmt != "mars_1":
        require((comment if comment is not None else "File generated by X_BOA") in text.split("\n")[0],
                "comment missing", text[:200])
    want = sorted([d for _, d in order if known(fmt, d["pid"])], key=lambda d: d["station"])
    base = defaults()
    kw = {}
    cut = sorted(d["x"] for d in want)[len(want) // 3] if want else 0.
    if select in ("test", "both"):
        want = [d for d in want if d["x"] * (1 + 1e-9 * (1 if d["x"] > 0 else -1)) >= cut]
        kw["test_function"] = lambda hit: hit["x"] * (1 + 1e-9 * (1 if hit["x"] > 0 else -1)) >= cut
        # one rounding in the file may not decide: leave such cases out
        if any(d["x"] != cut and abs(d["x"] - cut) <= 1e-8 * abs(cut) for d in (p[1] for p in pairs)):
            return
    if select in ("number", "both"):
        kw["number_of_hits"] = number
        want = want[:number]
    got = Bunch.new_from_read_builtin(fmt, name, **kw)
    require(len(got) == len(want), "number of hits", len(got), "expected", len(want), kw.keys())
    for hit, d in zip(got, want):
        check_hit(hit, files.expected(fmt, d, base), "file")
    note.label(fmt, how, select)
    note.nontrivial(len(set(d["station"] for d in want)) > 1)


@FACETS.add(strategy=lambda: st.tuples(_FMT, st.lists(st.lists(_PLAIN, min_size=0, max_size=6), min_size=1, max_size=3),
                                       st.sampled_from(["station", "pid", "event_number", "status"]),
                                       st.booleans()),
            quick=200, thorough=6000,
            rule="the dict and list readers give the hits of all files that match the name, split by the value of the "
                 "variable, the list in increasing order of it; a name that matches nothing and an unknown "
                 "format are refused with IOError; non-trivial: two or more values")
def split_reading(case, note):
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    fmt, groups, variable, testing = case
    gen.clear_weights()
    Hit.set_g4bl_unit("mm")
    os.makedirs("many", exist_ok=True)
    for old in glob.glob("many/*"):
        os.unlink(old)
    everything = []
    for i, group in enumerate(groups):
        pairs = [build(dict(d, event_number=100 * i + j)) for j, d in enumerate(group)]
        everything += [p[1] for p in pairs]
        Bunch.new_from_hits([p[0] for p in pairs]).hit_write_builtin(fmt, "many/file_%d.txt" % i)
    base = defaults()
    want = {}
    func = (lambda hit: hit["pid"] > 0) if testing else None
    for d in everything:
        if not testing or d["pid"] > 0:
            e = files.expected(fmt, d, base)
            want.setdefault(e[variable], []).append(e)
    got = Bunch.new_dict_from_read_builtin(fmt, "many/file_*.txt", variable, func)
    listed = Bunch.new_list_from_read_builtin(fmt, "many/file_?.txt", variable, func)
    require(sorted(got) == sorted(want), "keys", sorted(got), sorted(want))
    require(len(listed) == len(want), "number of bunches", len(listed))
    key = lambda d: d["event_number"]
    for k, bunch in list(got.items()) + list(zip(sorted(want), listed)):
        require(len(bunch) == len(want[k]), "hits in", k)
        for hit, e in zip(sorted(bunch, key=key), sorted(want[k], key=key)):
            check_hit(hit, e, "split file")
    for bad in lambda: Bunch.new_from_read_builtin(fmt, "many/none*"), \
            lambda: Bunch.new_from_read_builtin("no_such", "many/file_0.txt"):
        try:
            bad()
        except IOError:
            continue
        require(False, "unknown file or format accepted")
    note.nontrivial(len(want) > 1)


_STYLE = st.sampled_from(["%r", "%.17g", "%+.16e", "%.17G"])
_GAP = st.sampled_from([" ", "  ", "\t", "   \t "])


@FACETS.add(strategy=lambda: st.tuples(_FMT, st.lists(_PLAIN, min_size=1, max_size=5), _STYLE, _GAP,
                                       st.sampled_from(["none", "mm", "cm"]), st.booleans(),
                                       st.lists(st.integers(0, 4), max_size=3)), quick=400, thorough=12000,
            rule="text as other programs print it (exponents, signs, integers in scientific notation, tabs, padding, "
                 "comment lines and unit lines of g4beamline, no newline at the end) reads as the "
                 "numbers on the lines, in order; non-trivial: more than one line")
def other_writers(case, note):
    from xboa.hit import Hit
    from xboa.bunch import Bunch
    fmt, dicts, style, gap, unit, science, comments = case
    gen.clear_weights()
    Hit.set_g4bl_unit("mm")
    g4bl = fmt.startswith("g4")
    length = "cm" if (g4bl and unit == "cm") else "mm"
    lines = []
    if g4bl:
        lines = ["#BLTrackFile some title", "#x y z Px Py Pz t PDGid EvNum TrkId Parent weight"]
        if unit != "none":
            lines.append("#%s %s %s MeV/c MeV/c MeV/c ns - - - - -" % (unit, unit, unit))
    else:
        lines = ["header %d" % i for i in range(files.HEADER_LINES[fmt])]
    dicts = [build(d)[1] for d in dicts]
    for i, d in enumerate(dicts):
        if g4bl:
            lines += [["# a comment", "", "#"][c % 3] for c in comments if c == i]
        words = []
        for key, scale in files.columns(fmt, length):
            value = {"": 7, "pid": files.file_pid(fmt, d["pid"]), "ct": d["t"] * files.C_LIGHT}.get(key)
            value = d[key] if value is None else value
            if key in files.INTS or key == "":
                words.append("%.10e" % value if science and i % 2 and key else "%d" % value)
            else:
                words.append(style % (value / scale))
        lines.append((gap if i % 2 else "") + gap.join(words) + (gap if i % 3 else ""))
    with open("text.dat", "w") as f:
        f.write("\n".join(lines) + ("" if science else "\n"))
    try:
        got = Bunch.new_from_read_builtin(fmt, "text.dat")
    finally:
        Hit.set_g4bl_unit("mm")
    require(len(got) == len(dicts), "number of hits", len(got))
    base = defaults()
    for hit, d in zip(got, dicts):
        check_hit(hit, files.expected(fmt, d, base), "text")
    note.label(fmt)
    note.nontrivial(len(dicts) > 1)
