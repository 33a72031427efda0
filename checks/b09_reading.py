"""B09: values read out of bunches are those of the hits, in the order and units asked for."""
import math
import operator

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen, ref

FACETS = Registry()
UNIT_OF = {"x": ["mm", "cm", "m", "km", "mum", ""], "y": ["mm", "m"], "z": ["m", "cm"], "t": ["ns", "s", "mus", "ms"],
           "px": ["MeV/c", "GeV/c", "keV/c"], "pz": ["MeV/c", "eV/c", "TeV/c"], "energy": ["MeV", "GeV", "keV"],
           "bz": ["kT", "T", "Gauss", "mT"], "x'": ["", "rad", "deg"], "r": ["m", "mm"], "event_number": [""],
           "ct": ["m", ""], "mass": ["GeV/c2", "MeV/c2"]}
UNITS = {"": 1., "mm": 1., "cm": 10., "m": 1e3, "km": 1e6, "mum": 1e-3, "ns": 1., "s": 1e9, "mus": 1e3, "ms": 1e6,
         "MeV/c": 1., "GeV/c": 1e3, "keV/c": 1e-3, "eV/c": 1e-6, "TeV/c": 1e6, "MeV": 1., "GeV": 1e3, "keV": 1e-3,
         "kT": 1., "T": 1e-3, "Gauss": 1e-7, "mT": 1e-6, "rad": 1., "deg": math.pi / 180,
         "GeV/c2": 1e3, "MeV/c2": 1.}
ASK = st.lists(st.sampled_from(sorted(UNIT_OF)).flatmap(
    lambda v: st.tuples(st.just(v), st.sampled_from(UNIT_OF[v]))), min_size=1, max_size=5)


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, ASK, st.booleans(), st.booleans()), quick=300, thorough=10000,
            rule="list_get_hit_variable for any list of variables and units: one list per variable, one value "
                 "per hit in the order of the bunch, divided by the unit; get_hit_variable and the hit "
                 "agree; non-trivial: a unit that is not 1")
def list_hit_variables(case, note):
    spec, ask, with_units, with_amp = case
    hits = gen.beam(spec, 8)
    bunch = gen.beam_bunch(hits)
    variables, units = [a[0] for a in ask], [a[1] for a in ask]
    if with_amp:
        variables, units = variables + ["amplitude x y"], units + ["mm"]
    got = bunch.list_get_hit_variable(list(variables), list(units)) if with_units else \
        bunch.list_get_hit_variable(list(variables))
    require(len(got) == len(variables), "number of lists", len(got))
    for values, var, unit in zip(got, variables, units):
        require(len(values) == len(hits), "number of", var)
        for value, d, hit in zip(values, hits, bunch):
            want = ref.derived(d, var) if var[0] != "a" else bunch.get_hit_variable(hit, var)
            factor = UNITS[unit] if with_units else 1.0
            rel = 1e-7 if unit == "deg" else 1e-10
            require_close(value, want / factor, "%s in %r" % (var, unit), rel, 1e-9 * (var[0] == "a"))
            require_close(bunch.get_hit_variable(hit, var), want, "get_hit_variable " + var, 1e-12)
    note.label(*variables)
    note.nontrivial(with_units and any(UNITS[u] != 1 for u in units))


OPS = {"eq": operator.eq, "lt": operator.lt, "ge": operator.ge, "ne": operator.ne, "gt": operator.gt}


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.sampled_from(sorted(UNIT_OF) + ["station", "pid"]),
                                       st.integers(0, 40), st.sampled_from(sorted(OPS) + ["default"])),
            quick=300, thorough=8000,
            rule="get_hits gives exactly the hits (the objects, in order) whose value stands in the relation; "
                 "hits() is the list; non-trivial: some hits in and some out")
def get_hits(case, note):
    spec, var, which, op = case
    hits = gen.beam(spec, 4)
    bunch = gen.beam_bunch(hits)
    cut = bunch[which % len(bunch)].get(var)
    got = bunch.get_hits(var, cut) if op == "default" else bunch.get_hits(var, cut, OPS[op])
    func = OPS["eq" if op == "default" else op]
    want = [hit for hit in bunch if func(hit.get(var), cut)]
    require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "hits", len(got), len(want))
    require(all(a is b for a, b in zip(bunch.hits(), bunch)) and len(bunch.hits()) == len(bunch), "hits()")
    note.nontrivial(0 < len(got) < len(bunch))


@FACETS.add(strategy=lambda: st.tuples(gen.beam_spec, st.one_of(gen.smooth(-500, 500, 100), gen.smooth(-1e6, 1e6, 100)),
                                       st.one_of(gen.smooth(0.01, 2, 50), gen.smooth(2, 400, 50)),
                                       st.sampled_from(["t", "x", "default"]), gen.smooth(0, 5000, 20)),
            quick=300, thorough=10000,
            rule="period_transformation moves every hit by a whole number of periods from its offset into "
                 "[-1/2f, 1/2f), keeps everything else, and doing it again about 0 changes nothing; "
                 "non-trivial: a hit moved by a period")
def period(case, note):
    spec, offset, freq, var, spread = case
    hits = gen.beam(spec)
    bunch = gen.beam_bunch(hits)
    kw = {} if var == "default" else {"variable": var}
    var = "t" if var == "default" else var
    for hit in bunch:
        hit[var] = hit[var] * (1 + spread / 100)
    old = [dict((v, h[v]) for v in gen.DOUBLES + gen.INTS) for h in bunch]
    bunch.period_transformation(offset, freq, **kw)
    moved = False
    for h, d in zip(bunch, old):
        new = h[var]
        tol = 1e-9 * (abs(d[var]) + abs(offset) + 1 / freq)
        require(-0.5 / freq - tol <= new <= 0.5 / freq + tol, "out of range", new, "period", 1 / freq)
        n = (d[var] - offset - new) * freq
        require(abs(n - round(n)) < 1e-6 * (1 + abs(n)), "moved by", n, "periods")
        moved = moved or round(n) != 0
        require(all(h[v] == d[v] for v in d if v != var), "another variable changed")
    values = [h[var] for h in bunch]
    bunch.period_transformation(0.0, freq, **kw)
    for h, v in zip(bunch, values):
        if abs(abs(v) * freq - 0.5) > 1e-9:
            require_close(h[var], v, "second transformation", 1e-9, 1e-9 / freq)
    note.nontrivial(moved)


GETS = st.lists(st.sampled_from([["mean", ["z"]], ["mean", ["x", "y"]], ["bunch_weight", []], ["emittance", ["x", "y"]],
                                 ["beta", ["x"]], ["moment", ["x", "px"]], ["standard_deviation", ["y"]],
                                 ["alpha", ["x", "y"]], ["gamma", ["y"]], ["dispersion", ["x"]],
                                 ["angular_momentum", []]]), min_size=1, max_size=4)


@FACETS.add(strategy=lambda: st.tuples(st.lists(gen.beam_spec, min_size=1, max_size=5), GETS, st.booleans()),
            quick=100, thorough=3000,
            rule="Bunch.list_get: one list per quantity, the rows are the bunches with all their quantities "
                 "together, sorted by the first; non-trivial: two or more bunches and quantities")
def list_get(case, note):
    from xboa.bunch import Bunch
    specs, gets, strings = case
    gen.clear_weights()
    bunches = {}
    for i, spec in enumerate(specs):
        hits = gen.beam(dict(spec, weights="local", n=min(spec["n"], 12)), 9)
        bunches["b%d" % i if strings else 100 - i] = Bunch.new_from_hits([gen.make_hit(d) for d in hits])
    got = Bunch.list_get(bunches, [g[0] for g in gets], [g[1] for g in gets])
    rows = sorted([tuple(b.get(g[0], g[1]) for g in gets) for b in bunches.values()], key=lambda r: r[0])
    require(len(got) == len(gets) and all(len(g) == len(rows) for g in got), "shape")
    require(got[0] == sorted(got[0]), "not sorted by the first")
    require(sorted(zip(*got)) == sorted(rows), "rows", list(zip(*got)), "expected", rows)
    note.nontrivial(len(specs) > 1 and len(gets) > 1)
