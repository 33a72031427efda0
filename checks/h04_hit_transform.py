"""H04: translations and abelian (linear) transformations of hits and bunches."""
from hypothesis import strategies as st
import numpy

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()
VARS = ["x", "y", "z", "t", "px", "py", "pz", "energy"]
SHELL = ["", "energy", "pz"]


@st.composite
def linear_case(draw, n_hits=1):
    hits = draw(st.lists(gen.particle(), min_size=n_hits, max_size=max(1, 4 * (n_hits > 1) or 1)))
    n = draw(st.integers(1, 4))
    names = draw(st.permutations(VARS))[:n]
    mat = draw(st.lists(st.lists(gen.smooth(-2, 2), min_size=n, max_size=n),
                        min_size=n, max_size=n))
    trans = draw(st.dictionaries(st.sampled_from(names), gen.smooth(-50, 50), max_size=n))
    origin = draw(st.dictionaries(st.sampled_from(names), gen.smooth(-50, 50), max_size=n))
    return {"hits": hits, "names": names, "matrix": mat, "translation": trans,
            "origin": origin, "shell": draw(st.sampled_from(SHELL))}


def apply_linear(data, case):
    names = case["names"]
    mat = case["matrix"]
    vec = [data[k] - case["origin"].get(k, 0.) for k in names]
    out = dict(data)
    for i, k in enumerate(names):
        out[k] = sum(mat[i][j] * vec[j] for j in range(len(names))) + \
            case["origin"].get(k, 0.) + case["translation"].get(k, 0.)
    return put_on_shell(out, case["shell"])


def put_on_shell(out, var):
    p2 = out["px"] ** 2 + out["py"] ** 2 + out["pz"] ** 2
    edge = False
    if var == "energy":
        out["energy"] = (p2 + out["mass"] ** 2) ** 0.5
    elif var == "pz":
        val = out["energy"] ** 2 - out["mass"] ** 2 - out["px"] ** 2 - out["py"] ** 2
        # which way it goes is decided by pz, which may be a sum that is 0 up to rounding
        edge = abs(val) < 1e-3 or abs(out["pz"]) < 1e-8
        out["pz"] = (-val ** 0.5 if out["pz"] < 0. else val ** 0.5) if val > 1e-6 else 0.
    out["edge"] = edge
    return out


def compare(hit, want, data, where):
    if want["edge"]:
        return
    scale = max(abs(v) for v in data.values()) * 10 + 100
    for k in gen.DOUBLES + gen.INTS:
        if k in want:
            tol = 1e-11 * scale
            if k == "pz":
                tol = 1e-9 * scale
            require_close(hit[k], want[k], where + k, rel=1e-9, abs_=tol)
        else:
            require(hit[k] == {"local_weight": 1.0}.get(k, 0), where, k, "changed")


@FACETS.add(strategy=linear_case, quick=500, thorough=20000,
            rule="abelian_transformation of a hit against V'=R(V-O)+O+T; arguments must not be "
                 "modified; non-trivial: a translation or an origin and 2+ variables")
def hit_abelian(case, note):
    from xboa.hit import Hit
    data = case["hits"][0]
    hit = Hit.new_from_dict(data)
    mat = numpy.matrix(case["matrix"])
    trans, origin = dict(case["translation"]), dict(case["origin"])
    ret = hit.abelian_transformation(list(case["names"]), mat, trans, origin, case["shell"])
    require(ret is None or ret is hit, "returned another hit")
    compare(hit, apply_linear(data, case), data, "abelian ")
    require(trans == case["translation"] and origin == case["origin"] and
            (mat == numpy.matrix(case["matrix"])).all(), "arguments were modified")
    # with default arguments nothing is remembered from the previous call
    hit2 = Hit.new_from_dict(data)
    hit2.abelian_transformation(list(case["names"]), mat)
    plain = dict(case, translation={}, origin={}, shell="")
    compare(hit2, apply_linear(data, plain), data, "abelian with defaults ")
    note.nontrivial(len(case["names"]) > 1 and bool(trans or origin))
    note.label("shell " + case["shell"])


@st.composite
def translate_case(draw):
    return {"hits": draw(st.lists(gen.particle(), min_size=1, max_size=5)),
            "by": draw(st.dictionaries(st.sampled_from(VARS), gen.smooth(-40, 40), max_size=5)),
            "shell": draw(st.sampled_from(SHELL))}


@FACETS.add(strategy=translate_case, quick=300, thorough=10000,
            rule="translate of hits and of a whole bunch; non-trivial: 2+ hits and a translation")
def translate(case, note):
    from xboa.hit import Hit
    hits = [Hit.new_from_dict(d) for d in case["hits"]]
    bunch = gen.make_bunch(case["hits"])
    for hit in hits:
        hit.translate(dict(case["by"]), case["shell"])
    bunch.translate(dict(case["by"]), case["shell"])
    require(len(bunch) == len(hits), "bunch length")
    for n, data in enumerate(case["hits"]):
        want = dict(data)
        for k, v in case["by"].items():
            want[k] += v
        want = put_on_shell(want, case["shell"])
        compare(hits[n], want, data, "translate hit %d " % n)
        compare(bunch[n], want, data, "translate bunch hit %d " % n)
    note.nontrivial(len(hits) > 1 and bool(case["by"]))


@FACETS.add(strategy=lambda: linear_case(n_hits=2), quick=300, thorough=10000,
            rule="abelian_transformation of a bunch acts on every hit; non-trivial: 2+ hits")
def bunch_abelian(case, note):
    bunch = gen.make_bunch(case["hits"])
    bunch.abelian_transformation(list(case["names"]), numpy.matrix(case["matrix"]),
                                 dict(case["translation"]), dict(case["origin"]), case["shell"])
    for n, data in enumerate(case["hits"]):
        compare(bunch[n], apply_linear(data, case), data, "bunch abelian hit %d " % n)
    note.nontrivial(len(case["hits"]) > 1)


@FACETS.add(strategy=linear_case, quick=200, thorough=6000,
            rule="a transformation followed by its inverse about the same origin restores the "
                 "hit; non-trivial: well conditioned matrix of 2+ variables")
def inverse(case, note):
    from xboa.hit import Hit
    data = case["hits"][0]
    mat = numpy.matrix(case["matrix"]) + 4.5 * numpy.matrix(numpy.eye(len(case["names"])))
    if numpy.linalg.cond(mat) > 1e4:
        return
    hit = Hit.new_from_dict(data)
    hit.abelian_transformation(list(case["names"]), mat, {}, dict(case["origin"]))
    hit.abelian_transformation(list(case["names"]), numpy.linalg.inv(mat), {}, dict(case["origin"]))
    for k in VARS:
        require_close(hit[k], data[k], "inverse " + k, rel=1e-8, abs_=1e-7)
    note.nontrivial(len(case["names"]) > 1)
