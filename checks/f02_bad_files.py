"""F02: damaged files are reported, never turned into hits that were not there."""
import contextlib
import io

from hypothesis import strategies as st

from vlib.core import Registry, require
from checks import gen, files
from checks.f01_builtin_files import _PLAIN, _FMT, build, check_hit, defaults

FACETS = Registry()
_FEW = st.lists(_PLAIN, min_size=1, max_size=6)


def line_of(fmt, d):
    words = []
    for key, scale in files.columns(fmt):
        value = {"": 0, "pid": files.file_pid(fmt, d["pid"]), "ct": d["t"] * files.C_LIGHT}.get(key)
        value = d[key] if value is None else value
        words.append("%d" % value if key in files.INTS or key == "" else "%.17g" % (value / scale))
    return words


def header(fmt):
    return ["#BLTrackFile", "#x y z"] if fmt.startswith("g4") else ["h"] * files.HEADER_LINES[fmt]


def read(fmt, lines, **kw):
    """(bunch or None, what was printed, exception)"""
    from xboa.bunch import Bunch
    with open("bad.dat", "w") as f:
        f.write("\n".join(lines) + "\n")
    said = io.StringIO()
    try:
        with contextlib.redirect_stdout(said):
            return Bunch.new_from_read_builtin(fmt, "bad.dat", **kw), said.getvalue(), None
    except Exception as exc:
        return None, said.getvalue(), exc


DAMAGE = st.sampled_from(["cut 1", "cut 3", "cut all but one", "extra", "extra 4", "join", "split number"])


def damage(words, how, other):
    if how == "cut 1":
        return words[:-1]
    if how == "cut 3":
        return words[3:]
    if how == "cut all but one":
        return words[:1]
    if how == "extra":
        return words + ["0"]
    if how == "extra 4":
        return ["1.0"] * 4 + words
    if how == "join":
        return words + other
    return words[:2] + [words[2] + "1", words[2] + "2"] + words[3:]


@FACETS.add(strategy=lambda: st.tuples(_FMT, _FEW, st.lists(st.tuples(st.integers(0, 6), DAMAGE), max_size=6),
                                       st.sampled_from([-1, -1, 0, 1, 2, 4]), st.booleans()),
            quick=500, thorough=20000,
            rule="lines with too few or too many words anywhere between good lines are skipped and their number "
                 "reported; the good lines read as they would without them; non-trivial: a bad line before "
                 "a good one")
def wrong_length(case, note):
    fmt, dicts, bad, number, testing = case
    gen.clear_weights()
    dicts = [build(d)[1] for d in dicts]
    lines, kinds = header(fmt), []
    for i in range(len(dicts) + 1):
        for at, how in bad:
            if min(at, len(dicts)) == i:
                words = damage(line_of(fmt, dicts[i % len(dicts)]), how, line_of(fmt, dicts[0]))
                lines.append("  ".join(words))
                kinds.append(None)
        if i < len(dicts):
            lines.append(" ".join(line_of(fmt, dicts[i])))
            kinds.append(dicts[i])
    kw = {"number_of_hits": number}
    if testing:
        kw["test_function"] = lambda hit: hit["pid"] > 0
    want, skipped = [], 0
    for kind in kinds:
        if 0 <= number <= len(want):
            break
        if kind is None:
            skipped += 1
        elif not testing or kind["pid"] > 0:
            want.append(kind)
    bunch, said, exc = read(fmt, lines, **kw)
    require(exc is None, "reading raised", repr(exc))
    require(len(bunch) == len(want), "hits", len(bunch), "expected", len(want))
    base = defaults()
    for hit, d in zip(bunch, want):
        check_hit(hit, files.expected(fmt, d, base), "with bad lines")
    if skipped:
        require(any(word == str(skipped) for word in said.split()), "bad lines not reported:", said, skipped)
    else:
        require("failed" not in said, "good file reported as bad", said)
    note.label(*["bad" if k is None else "good" for k in kinds])
    note.nontrivial(None in kinds and kinds[-1] is not None)


@FACETS.add(strategy=lambda: st.tuples(_FMT, _FEW, st.lists(st.tuples(st.integers(0, 6), DAMAGE), max_size=3)),
            quick=300, thorough=8000,
            rule="read hit by hit: a bad line raises BadEventError (an IOError) and is consumed, the next line reads "
                 "as itself, the end of the file raises EOFError every time; a factory's generator gives "
                 "the hits up to there; non-trivial: a bad line in between")
def hit_by_hit(case, note):
    from xboa.hit import Hit, BadEventError
    from xboa.hit.factory import BuiltinHitFactory
    fmt, dicts, bad = case
    gen.clear_weights()
    dicts = [build(d)[1] for d in dicts]
    lines, kinds = [], []
    for i, d in enumerate(dicts):
        for at, how in bad:
            if at == i:
                lines.append(" ".join(damage(line_of(fmt, d), how, line_of(fmt, d))))
                kinds.append(None)
        lines.append(" ".join(line_of(fmt, d)))
        kinds.append(d)
    handle = io.StringIO("\n".join(lines) + "\n")
    base = defaults()
    for kind in kinds:
        try:
            hit = Hit.new_from_read_builtin(fmt, handle)
        except BadEventError as exc:
            require(kind is None and isinstance(exc, IOError), "good line refused", exc)
        else:
            require(kind is not None, "a hit from a bad line")
            check_hit(hit, files.expected(fmt, kind, base), "hit by hit")
    for _ in range(2):
        try:
            Hit.new_from_read_builtin(fmt, handle)
        except EOFError:
            continue
        require(False, "a hit after the end")
    good = [" ".join(line_of(fmt, d)) for d in dicts]
    made = list(BuiltinHitFactory(fmt, io.StringIO("\n".join(good) + "\n")).hit_generator())
    require(len(made) == len(dicts), "generator made", len(made))
    for hit, d in zip(made, dicts):
        check_hit(hit, files.expected(fmt, d, base), "generator")
    note.nontrivial(None in kinds[:-1])


_JUNK = st.sampled_from(["x", "1.2.3", "1e", "--1", "0x10", "1,5", "e5", "#", "None", "1+2j", "''", "-", "1e5e5", "\x00", "²"])
# something wrong in front of, behind or within the right number
_AFFIX = st.tuples(st.sampled_from(["front", "back", "back", "in"]), st.sampled_from(list("dDfFlLx%*:;'\"()")))


def spoil(word, junk):
    if isinstance(junk, str):
        return junk
    at = {"front": 0, "back": len(word), "in": len(word) // 2}[junk[0]]
    return word[:at] + junk[1] + word[at:]


@FACETS.add(strategy=lambda: st.tuples(_FMT, _FEW, st.integers(0, 5), st.integers(0, 22), st.one_of(_JUNK, _AFFIX)), quick=300,
            thorough=8000,
            rule="a line of the right length with a word that is not a number raises, or is skipped and reported: it "
                 "never gives a hit; non-trivial: every case where the column is used")
def not_numbers(case, note):
    fmt, dicts, row, col, junk = case
    gen.clear_weights()
    dicts = [build(d)[1] for d in dicts]
    rows = [line_of(fmt, d) for d in dicts]
    row %= len(rows)
    col %= len(rows[0])
    unused = files.columns(fmt)[col][0] == ""
    rows[row][col] = spoil(rows[row][col], junk)
    if junk == "#" and col == 0 and fmt.startswith("g4"):
        return    # a comment
    bunch, said, exc = read(fmt, header(fmt) + [" ".join(r) for r in rows])
    if unused:
        require(exc is None and len(bunch) == len(dicts), "unused column decided", repr(exc))
        return
    note.nontrivial()
    if exc is not None:
        require(not isinstance(exc, (AttributeError, NameError)), "failed for another reason", repr(exc))
        return
    require(len(bunch) == len(dicts) - 1 and "1" in said, "a hit was made from", rows[row])
    base = defaults()
    for hit, d in zip(bunch, dicts[:row] + dicts[row + 1:]):
        check_hit(hit, files.expected(fmt, d, base), "beside junk")


_WORD = st.one_of(st.integers(-5, 5).map(str), st.floats(-1e3, 1e3).map(repr), _JUNK, st.just("13"), st.just("2"),
                  st.sampled_from(["nan", "inf", "1e400", "99999999999", "-0"]))
_TEXTS = st.lists(st.one_of(st.lists(_WORD, max_size=25),
                            st.lists(st.integers(1, 5).map(str), min_size=11, max_size=23)), max_size=8)


@FACETS.add(strategy=lambda: st.tuples(_FMT, _TEXTS), quick=400, thorough=20000,
            rule="any text: reading raises or gives, in order, a hit for each line that has the right number of "
                 "words, all numbers, and no others; the ids and positions are those on the line; non-trivial: a "
                 "hit was read")
def any_text(case, note):
    fmt, rows = case
    gen.clear_weights()
    if fmt.startswith("g4"):
        rows = [r for r in rows if not (r and r[0].startswith("#"))]
    bunch, said, exc = read(fmt, header(fmt) + [" ".join(r) for r in rows])
    cols = files.columns(fmt)
    good = [r for r in rows if len(r) == len(cols)]

    def number(word):
        try:
            return float(word)
        except ValueError:
            return None
    if exc is None:
        require(len(bunch) == len(good), "hits", len(bunch), "lines", len(good))
        for hit, words in zip(bunch, good):
            for word, (key, scale) in zip(words, cols):
                if key in ("", "pid", "energy", "ct"):
                    continue
                value = number(word)
                require(value is not None, "hit made of", words)
                value *= scale
                if key in files.INTS:
                    value = int(value)
                got = hit[key]
                require(got == value or abs(got - value) <= 1e-12 * abs(value) or (got != got and value != value),
                        key, "is", got, "on the line", word)
    else:
        require(good, "no line of the right length, but", repr(exc))
        odd = any(number(w) is None or abs(number(w)) > 2**31 - 1 or number(w) != number(w)
                  for r in good for w, c in zip(r, cols) if c[0])
        pids = [number(r[[c[0] for c in cols].index("pid")]) for r in good]
        codes = files.ICOOL if fmt.startswith("icool") else files.MARS
        strange = not fmt.startswith("g4") and any(p is None or p not in codes.values() for p in pids)
        require(odd or strange, "good lines refused:", repr(exc), good)
    note.nontrivial(exc is None and len(good) > 0)
