"""T01: MatrixTracking and TrackingBase apply the matrices they were given."""
import math

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()
ORDER = ["x", "px", "y", "py", "t", "energy"]


@st.composite
def lattices(draw):
    n = draw(st.integers(0, 5))
    row = st.lists(st.integers(-3, 3).map(float), min_size=6, max_size=6)
    offset = st.lists(gen.smooth(-50, 50, 400), min_size=6, max_size=6)
    hits = []
    for _ in range(draw(st.integers(0, 4))):
        hit = draw(gen.particle(neg_pz=True))
        hit["local_weight"] = draw(st.sampled_from([0.0, 0.5, 1.0]))
        hit["station"] = draw(st.integers(0, 4))
        hits.append(hit)
    return {"matrices": [draw(st.lists(row, min_size=6, max_size=6)) for _ in range(n)],
            "offsets": [draw(offset) for _ in range(n)], "offset_in": draw(offset), "hits": hits,
            "timeout": draw(st.booleans())}


def tracking(case):
    import numpy
    from xboa.tracking import MatrixTracking, TimeoutTracking
    args = ([numpy.matrix(m) for m in case["matrices"]], [numpy.matrix([o]) for o in case["offsets"]],
            numpy.matrix([case["offset_in"]]))
    return TimeoutTracking(*(args + (0.0,))) if case["timeout"] else MatrixTracking(*args)


def everything(hit):
    return dict((k, hit[k]) for k in gen.DOUBLES + gen.INTS)


def model(case, hit):
    u = [hit[k] - v for k, v in zip(ORDER, case["offset_in"])]
    out = [dict(hit)]
    for matrix, offset in zip(case["matrices"], case["offsets"]):
        new = dict(hit)
        for k, row, v in zip(ORDER, matrix, offset):
            new[k] = math.fsum(a * b for a, b in zip(row, u)) + v
        pz2 = new["energy"] ** 2 - new["mass"] ** 2 - new["px"] ** 2 - new["py"] ** 2
        new["pz"] = math.copysign(math.sqrt(pz2), 1.0 if hit["pz"] == 0.0 else hit["pz"]) if pz2 > 1e-6 else 0.0
        new["unsure"] = abs(pz2) < 1e-3 * (1 + new["energy"] ** 2)
        out.append(new)
    return out


def same(got, want, what):
    for key, value in want.items():
        if key == "unsure" or (key == "pz" and want.get("unsure")):
            continue
        require_close(got[key], value, "%s %s" % (what, key), 1e-9, 1e-6 if key == "pz" else 1e-7)


@FACETS.add(strategy=lattices, quick=300, thorough=12000,
            rule="track_one gives the hit itself and then, for each matrix, M (u - v_in) + v_out of the hit, with pz "
                 "on mass shell and everything else as it was; track_many does so for each hit in order; last is "
                 "what was tracked last; hits, matrices and offsets are left alone; the outputs are independent; "
                 "non-trivial: 2 matrices and 2 hits")
def track(case, note):
    from checks.gen import make_hit
    gen.clear_weights()
    tracker = tracking(case)
    hits = [make_hit(h) for h in case["hits"]]
    before = [everything(h) for h in hits]
    kept = [m.tolist() for m in tracker.tm_list], [o.tolist() for o in tracker.offset_list], tracker.offset_in.tolist()
    want = [model(case, b) for b in before]
    for i, hit in enumerate(hits):
        got = tracker.track_one(hit)
        require(len(got) == len(want[i]), "%d hits out, want %d" % (len(got), len(want[i])))
        for j, (g, w) in enumerate(zip(got, want[i])):
            same(g, w, "hit %d after %d" % (i, j))
        require(tracker.last == [got], "last is not the hits of track_one")
        for g in got:
            g["x"] += 1.0
        require(everything(hit) == before[i], "hit changed")
    many = tracker.track_many(hits)
    require(len(many) == len(hits), "%d lists of %d hits" % (len(many), len(hits)))
    for i, (got, w) in enumerate(zip(many, want)):
        require(len(got) == len(w), "track_many: %d hits out" % len(got))
        for j, (g, v) in enumerate(zip(got, w)):
            same(g, v, "track_many: hit %d after %d" % (i, j))
    require(tracker.last == many, "last is not the hits of track_many")
    require([everything(h) for h in hits] == before, "hits changed")
    require(([m.tolist() for m in tracker.tm_list], [o.tolist() for o in tracker.offset_list],
             tracker.offset_in.tolist()) == kept, "matrices or offsets changed")
    note.label("%d matrices" % len(case["matrices"]), "timeout" if case["timeout"] else "matrix")
    note.nontrivial(len(case["matrices"]) > 1 and len(hits) > 1)


@FACETS.add(strategy=lambda: st.tuples(lattices(), st.sampled_from(["count", "array", "list", "shape", "matrix shape",
                                                                    "in shape", "in list"])),
            quick=150, thorough=3000,
            rule="a different number of offsets and matrices raises IndexError; matrices and offsets that are not "
                 "numpy matrices of the documented shape raise TypeError; non-trivial: all")
def refused(case, note):
    import numpy
    from xboa.tracking import MatrixTracking
    case, kind = case
    matrices = [numpy.matrix(m) for m in case["matrices"]] + [numpy.matrix(numpy.eye(6))]
    offsets = [numpy.matrix([o]) for o in case["offsets"]] + [numpy.matrix([[0.0] * 6])]
    inside = numpy.matrix([case["offset_in"]])
    k = len(matrices) // 2
    want = TypeError
    if kind == "count":
        offsets.pop()
        want = IndexError
    elif kind == "array":
        matrices[k] = numpy.array(matrices[k])
    elif kind == "list":
        offsets[k] = offsets[k].tolist()[0]
    elif kind == "shape":
        offsets[k] = offsets[k].T
    elif kind == "matrix shape":
        matrices[k] = matrices[k][:, :5]
    elif kind == "in shape":
        inside = inside[:, :4]
    else:
        inside = inside.tolist()[0]
    try:
        MatrixTracking(matrices, offsets, inside)
    except want:
        pass
    else:
        require(False, "%s: not refused" % kind)
    note.label(kind)
    note.nontrivial(True)


@FACETS.add(strategy=lambda: st.lists(st.tuples(st.booleans(), st.integers(0, 4)), max_size=6), quick=100, thorough=2000,
            rule="TrackingBase.track_many calls track_one for each hit in order and keeps the results as last; "
                 "track_one of the base raises NotImplementedError; non-trivial: two calls")
def base(case, note):
    from xboa.tracking import TrackingBase

    class Counter(TrackingBase):
        def __init__(self):
            TrackingBase.__init__(self)
            self.seen = []

        def track_one(self, hit):
            self.seen.append(hit)
            return [hit, (hit, len(self.seen))]

    counter, expected = Counter(), []
    require(counter.last == [], "last at first")
    for one, n in case:
        if one:
            expected.append("one")
            require(counter.track_one("one") == ["one", ("one", len(expected))], "track_one")
            continue
        hits = ["hit %d" % i for i in range(n)]
        want = [[h, (h, len(expected) + i + 1)] for i, h in enumerate(hits)]
        expected += hits
        require(counter.track_many(hits) == want, "track_many")
        require(counter.last == want, "last")
        require(counter.seen == expected, "order of calls")
    try:
        TrackingBase().track_one(None)
    except NotImplementedError:
        pass
    else:
        require(False, "base class tracks")
    note.nontrivial(len(case) > 1)
