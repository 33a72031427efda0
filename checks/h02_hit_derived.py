"""H02: derived variables, their setters, and the mass shell condition."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, Violation, require, require_close
from checks import gen

FACETS = Registry()
ASSUMPTIONS = ["speed of light 299.792458 mm/ns; units mm, ns, MeV as documented"]
C = gen.C_LIGHT


def hit_case():
    return gen.particle(fields=True, neg_pz=True)


def derived(d):
    p2 = d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2
    out = {
        "p": math.sqrt(p2),
        "r": math.hypot(d["x"], d["y"]),
        "phi": math.atan2(d["y"], d["x"]),
        "pt": math.hypot(d["px"], d["py"]),
        "pphi": math.atan2(d["py"], d["px"]),
        "spin": math.sqrt(d["sx"] ** 2 + d["sy"] ** 2 + d["sz"] ** 2),
        "ct": d["t"] * C,
        "r_squared": d["x"] ** 2 + d["y"] ** 2,
        "z'": 1.0,
        "kinetic_energy": d["energy"] - d["mass"],
        "l_kin": d["x"] * d["py"] - d["y"] * d["px"],
    }
    if d["pz"] != 0.:
        out.update({"x'": d["px"] / d["pz"], "y'": d["py"] / d["pz"],
                    "t'": -d["energy"] / d["pz"], "ct'": -d["energy"] / d["pz"],
                    "r'": out["pt"] / d["pz"]})
    return out


def check_derived(hit, where=""):
    d = dict((k, hit[k]) for k in gen.DOUBLES)
    for key, want in derived(d).items():
        scale = {"l_kin": abs(d["x"] * d["py"]) + abs(d["y"] * d["px"]),
                 "kinetic_energy": abs(d["energy"])}.get(key, 0.)
        require_close(hit.get(key), want, where + key, rel=1e-11, abs_=1e-11 * scale + 1e-300)
        require_close(hit[key], want, where + "[" + key + "]", rel=1e-11,
                      abs_=1e-11 * scale + 1e-300)


@FACETS.add(strategy=hit_case, quick=500, thorough=20000,
            rule="every derived variable of a generated particle against its definition; "
                 "non-trivial: both transverse positions and momenta non-zero")
def getters(case, note):
    from xboa.hit import Hit
    hit = Hit.new_from_dict(case)
    check_derived(hit)
    getters = {"p": hit.get_p, "r": hit.get_r, "phi": hit.get_phi, "pt": hit.get_pt,
               "pphi": hit.get_pphi, "x'": hit.get_xP, "y'": hit.get_yP, "t'": hit.get_tP,
               "r'": hit.get_rP, "spin": hit.get_spin, "ct": hit.get_ct,
               "r_squared": hit.get_r_squared, "kinetic_energy": hit.get_ek,
               "l_kin": hit.get_l_kin, "local_weight": hit.get_local_weight,
               "global_weight": hit.get_global_weight, "weight": hit.get_weight}
    for key, func in getters.items():
        require(gen.same(float(func()), float(hit[key])), key, "accessor differs from get")
    for key in hit.get_variables():
        hit[key]  # every advertised variable can be read
    note.nontrivial(all(case[k] != 0 for k in ("x", "y", "px", "py")))


def setter_case():
    return st.tuples(hit_case(), st.lists(st.one_of(
        st.tuples(st.just("p"), gen.smooth(0, 1000)),
        st.tuples(st.just("x'"), gen.smooth(-2, 2)),
        st.tuples(st.just("y'"), gen.smooth(-2, 2)),
        st.tuples(st.just("t'"), gen.smooth(-40, 40)),
        st.tuples(st.just("ct"), gen.smooth(-1e5, 1e5)),
        st.tuples(st.just("kinetic_energy"), gen.smooth(0, 1000)),
        st.tuples(st.just("pz"), st.sampled_from([0., 1e-10, -150., 200.])),
    ), min_size=1, max_size=6))


@FACETS.add(strategy=setter_case, quick=500, thorough=20000,
            rule="a sequence of derived-variable sets, each checked for its effect and for "
                 "every other stored variable unchanged; non-trivial: 2 or more accepted sets")
def setters(case, note):
    from xboa.hit import Hit
    start, sets = case
    hit = Hit.new_from_dict(start)
    n_ok = 0
    for key, value in sets:
        before = dict((k, hit[k]) for k in gen.DOUBLES + gen.INTS)
        where = "set %s to %r on %r: " % (key, value, before)
        expect = dict(before)
        error = False
        if key == "pz":
            expect["pz"] = value
        elif key == "p":
            p = math.sqrt(before["px"] ** 2 + before["py"] ** 2 + before["pz"] ** 2)
            if p == 0.:
                expect["pz"] = value
            else:
                for k in ("px", "py", "pz"):
                    expect[k] = before[k] * value / p
        elif key == "ct":
            expect["t"] = value / C
        elif key == "kinetic_energy":
            expect["energy"] = value + before["mass"]
        elif abs(before["pz"]) < 1e-9:
            error = True
        elif key == "x'":
            expect["px"] = value * before["pz"]
        elif key == "y'":
            expect["py"] = value * before["pz"]
        elif key == "t'":
            energy = -value * before["pz"]
            if energy < 0.:
                energy *= -1.
                expect["pz"] = -before["pz"]
            expect["energy"] = energy
            if energy < before["mass"]:
                error = None  # documented to raise; what is left behind is not specified
        try:
            hit[key] = value
            if error or error is None:
                raise Violation(where + "no error")
        except FloatingPointError:
            if error is False:
                raise
            note.label("error")
            if error is None:
                return
        else:
            n_ok += 1
        for k in expect:
            require_close(hit[k], expect[k], where + k, rel=1e-11, abs_=1e-12)
        if key != "pz" and not error:
            if key == "t'":
                require_close(hit[key], value, where + "read back", rel=1e-10)
            else:
                require_close(hit[key], value, where + "read back", rel=1e-9,
                              abs_=1e-9 * (1 + abs(before["mass"])))
        if abs(hit["pz"]) > 1e-9:
            check_derived(hit, where)
    note.nontrivial(n_ok >= 2)


def shell_case():
    comp = st.one_of(gen.smooth(-400, 400), st.just(0.))
    return st.fixed_dictionaries({
        "mass": st.sampled_from([0.0, 0.51099891, 105.6583668, 938.271996]),
        "energy": gen.smooth(0, 1500),
        "px": comp, "py": comp, "pz": comp,
        "x": gen.smooth(-10, 10), "t": gen.smooth(-10, 10),
        "var": st.sampled_from(["", "p", "px", "py", "pz", "energy"])})


@FACETS.add(strategy=shell_case, quick=900, thorough=40000,
            rule="mass_shell_condition for every variable on momenta, energies and masses that "
                 "can and cannot be put on shell; non-trivial: variable is not ''")
def mass_shell(case, note):
    """Only the named variable changes; E^2=p^2+m^2 afterwards, or it is 0 and False returned."""
    from xboa.hit import Hit
    data = dict((k, v) for k, v in case.items() if k != "var")
    var = case["var"]
    hit = Hit.new_from_dict(data)
    before = dict((k, hit[k]) for k in gen.DOUBLES + gen.INTS)
    e, m = before["energy"], before["mass"]
    mom = [before[k] for k in ("px", "py", "pz")]
    p2 = sum(q * q for q in mom)
    ret = hit.mass_shell_condition(var)
    after = dict((k, hit[k]) for k in gen.DOUBLES + gen.INTS)
    where = "mass_shell_condition(%r) on %r: " % (var, data)
    expect = dict(before)
    if var == "":
        require(ret is None, where, "returned", ret)
        ok = None
    elif var == "energy":
        expect["energy"] = math.sqrt(m * m + p2)
        ok = True
    elif var == "p":
        val = (e - m) * (e + m)
        if abs(val) < 1e-6 and val != 0.:
            return  # on the edge
        p_new = math.sqrt(max(val, 0.))
        ok = val >= 0.
        if p2 == 0.:
            expect["pz"] = p_new
        else:
            for k in ("px", "py", "pz"):
                expect[k] = before[k] * p_new / math.sqrt(p2)
    else:
        val = e * e - m * m - (p2 - before[var] ** 2)
        if abs(val) < 2e-6:
            return  # within the tolerance of the code
        ok = val > 0.
        # the direction is kept
        expect[var] = (-math.sqrt(val) if before[var] < 0. else math.sqrt(val)) if ok else 0.
    for k in after:
        scale = max(e, m, 1.)
        # sqrt of a difference of squares: error of the square is ~eps*scale^2
        if k == var and k != "energy" and expect[k]:
            tol = 1e-14 * (scale * scale + p2) / abs(expect[k]) * 100
        else:
            tol = 1e-11
        if k in expect and expect[k] == before[k] and not (var == "p" and k in ("px", "py", "pz")) \
                and k != var:
            require(after[k] == before[k], where, k, "changed to", after[k])
        else:
            require_close(after[k], expect[k], where + k, rel=1e-10, abs_=tol)
    if ok is not None:
        require(ret is ok, where, "returned", ret, "expected", ok)
    if ok:
        got = after["energy"] ** 2 - m * m - sum(after[k] ** 2 for k in ("px", "py", "pz"))
        require(abs(got) <= 1e-9 * (after["energy"] ** 2 + m * m + p2) + 1e-6, where, "off shell", got)
    note.nontrivial(var != "")
    note.label(var + ("" if ok is None else " ok" if ok else " impossible"))


@FACETS.add(strategy=lambda: st.tuples(hit_case(), st.sampled_from(
    ["x", "mass", "E", "pt", "t", "P", "energy ", "spill"])), quick=60, thorough=500,
    rule="unknown mass shell variables are refused and change nothing; all non-trivial")
def mass_shell_unknown(case, note):
    from xboa.hit import Hit
    data, name = case
    hit = Hit.new_from_dict(data)
    ref = Hit.new_from_dict(data)
    try:
        hit.mass_shell_condition(name)
    except Exception:
        pass
    else:
        raise Violation("mass_shell_condition(%r) accepted" % name)
    require(hit == ref, "hit changed")
    note.nontrivial()


@FACETS.add(strategy=lambda: st.tuples(hit_case(), st.sampled_from(["", "px", "pz", "energy", "p"]),
                                       st.booleans()), quick=300, thorough=8000,
            rule="new_from_dict with a mass shell variable equals set then mass_shell_condition; "
                 "check() accepts on-shell particles of known pid; all with a shell variable")
def built_on_shell(case, note):
    from xboa.hit import Hit
    data, var, spoil = case
    data = dict(data)
    if spoil and var == "energy":
        data["energy"] = 1.
    a = Hit.new_from_dict(data, var)
    b = Hit.new_from_dict(data)
    b.mass_shell_condition(var)
    require(a == b, "new_from_dict(d, %r) differs from set then shell" % var)
    on_shell = abs(round(a["p"] ** 2 + a["mass"] ** 2) - round(a["energy"] ** 2)) <= 1e-3
    require(a.check() == on_shell, "check() says", a.check(), "on shell:", on_shell)
    b["mass"] += 1.
    require(b.check() is False, "check() accepts a mass that does not belong to the pid")
    note.nontrivial(var != "")


@FACETS.add(strategy=lambda: st.fixed_dictionaries(
    {"hit": hit_case(), "pid": st.sampled_from([None, None, None, 0, 3222, -3222]),
     "mass": st.sampled_from([0.0] * 7 + [5e-4, -5e-4, 2e-3, -2e-3, 5.0, -0.4, -5.0]),
     "energy": st.sampled_from([0.0] * 7 + [1.0, -1.0, 30.0]), "px": st.sampled_from([0.0] * 5 + [2.0, -2.0]),
     "tolerance": st.sampled_from([None, None, 1.0, 1e-5])}), quick=300, thorough=8000,
            rule="check() is true of a hit on mass shell with the mass of its pid, within the tolerance, and false "
                 "if the mass is too high or too low, the pid unknown, or the energy too high or too low for the "
                 "momentum; it changes nothing; cases where rounding may decide are left out; non-trivial: something off")
def hit_check(case, note):
    from xboa.hit import Hit
    d = dict(case["hit"])
    tol = 1e-3 if case["tolerance"] is None else case["tolerance"]
    d["mass"] = max(d["mass"] + case["mass"], 0.0)
    off_mass = abs(d["mass"] - case["hit"]["mass"])
    if case["pid"] is not None:
        d["pid"] = case["pid"]
        off_mass = d["mass"] if d["pid"] == 0 else 0.0
    p2 = d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2
    d["energy"] = math.sqrt(d["mass"] ** 2 + p2) + case["energy"]
    d["px"] += case["px"]
    p2 = d["px"] ** 2 + d["py"] ** 2 + d["pz"] ** 2
    off = abs(p2 + d["mass"] ** 2 - d["energy"] ** 2)
    edge = abs((d["energy"] ** 2) % 1.0 - 0.5) < 1e-3
    if (edge and off < 1e-3) or 1e-3 <= off <= 3.0 + tol or abs(off_mass - tol) < tol * 1e-3:
        return
    hit = Hit.new_from_dict(d)
    before = Hit.new_from_dict(d)
    got = hit.check() if case["tolerance"] is None else hit.check(case["tolerance"])
    want = abs(d["pid"]) != 3222 and off_mass <= tol and off < 1e-3
    require(got is want, "check() says", got, "of a mass off by", off_mass, "and a shell off by", off, "pid", d["pid"])
    require(hit == before, "check() changed the hit")
    note.label("good" if want else "bad")
    note.nontrivial(not want)
