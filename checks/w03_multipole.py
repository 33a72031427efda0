"""W03: multipole weighting gives the bunch exactly the moments asked for."""
import itertools
import math
import random

from hypothesis import strategies as st

from vlib.core import Registry, require, require_close
from checks import gen

FACETS = Registry()
VARIABLES = ["x", "y", "t", "px", "py"]


def indices(n, order):
    return [i for i in itertools.product(range(order + 1), repeat=n) if 1 <= sum(i) <= order]


@st.composite
def targets(draw):
    n = draw(st.integers(1, 3))
    order = draw(st.integers(1, 3 if n < 3 else 2))
    every = indices(n, order)
    some = draw(st.lists(st.integers(0, len(every) - 1), min_size=1, max_size=min(6, len(every)), unique=True))
    return {"names": draw(st.permutations(VARIABLES))[:n], "order": order, "pick": [list(every[i]) for i in some],
            "shift": [draw(gen.smooth(-0.15, 0.15, 60)) for _ in some], "n": draw(st.integers(25, 60)),
            "seed": draw(st.integers(0, 10**6)), "mean": [draw(gen.smooth(-2, 2, 80)) for _ in range(n)],
            "size": [draw(gen.smooth(0.5, 2, 30)) for _ in range(n)],
            "weights": draw(st.sampled_from(["one", "one", "local", "both", "zeros"])), "global": draw(st.booleans()),
            "again": draw(st.booleans()), "ellipse": draw(st.booleans())}


def moment(index, data, weights):
    total = math.fsum(weights)
    return math.fsum(w * math.prod(u ** p for u, p in zip(row, index)) for row, w in zip(data, weights)) / total


def the_bunch(case):
    rng = random.Random(case["seed"])
    hits = []
    for i in range(case["n"]):
        hit = {"pid": 2212, "event_number": i, "z": 3.0}
        for name, m, s in zip(case["names"], case["mean"], case["size"]):
            hit[name] = m + s * rng.gauss(0, 1)
        if case["weights"] in ("local", "both"):
            hit["local_weight"] = rng.choice([0.5, 1.0, 2.0])
        if case["weights"] == "both":
            hit["global_weight"] = rng.choice([0.5, 3.0])
        if case["weights"] == "zeros":
            hit["local_weight"] = rng.choice([0.0, 1.0, 1.0, 1.0])
        hits.append(hit)
    return gen.beam_bunch(hits)


def read(bunch):
    return [[h[k] for k in gen.DOUBLES + gen.INTS if k != "local_weight"] for h in bunch]


@FACETS.add(strategy=targets, quick=250, thorough=10000,
            rule="after apply_weights the weighted moments are those asked for (those of the target ellipse and mean, "
                 "or a list in any order), each weight is the one before times a polynomial in the moments' "
                 "variables, the sum of weights is the length of the bunch and all else is as before; applied again "
                 "nothing changes; non-trivial: two moments, weighted bunch or means away from 0")
def weight(case, note):
    import numpy
    from xboa.bunch.weighting import MultipoleWeighting
    bunch, names = the_bunch(case), case["names"]
    n = len(names)
    data = [list(row) for row in zip(*bunch.list_get_hit_variable(names))]
    name, other = ("global_weight", "local_weight") if case["global"] else ("local_weight", "global_weight")
    old = [h[name] for h in bunch]
    others = [h[other] for h in bunch]
    total = [a * b for a, b in zip(old, others)]
    order = case["order"]
    mean = [moment([int(k == i) for k in range(n)], data, total) for i in range(n)]
    cov = [[math.fsum(w * (r[i] - mean[i]) * (r[j] - mean[j]) for r, w in zip(data, total)) / math.fsum(total)
            for j in range(n)] for i in range(n)]
    if case["ellipse"]:
        order = max(order, 2)
        shift = (case["shift"] * 9)[:9]
        goal_mean = [m + s * c[i] ** 0.5 for i, (m, s, c) in enumerate(zip(mean, shift, cov))]
        goal = [[cov[i][j] + (shift[3 + i + j] * cov[i][i] ** 0.5 * cov[j][j] ** 0.5) for j in range(n)]
                for i in range(n)]
        w = MultipoleWeighting(order, list(names), numpy.array(goal), numpy.array(goal_mean))
        wanted = {}
        for i in range(n):
            wanted[tuple(int(k == i) for k in range(n))] = goal_mean[i]
            for j in range(i, n):
                key = tuple(int(k == i) + int(k == j) for k in range(n))
                wanted[key] = goal[i][j] + goal_mean[i] * goal_mean[j]
    else:
        wanted = {}
        for index, s in zip(case["pick"], case["shift"]):
            size = math.prod(cov[i][i] ** (0.5 * p) for i, p in enumerate(index))
            wanted[tuple(index)] = moment(index, data, total) + s * size
        try:
            w = MultipoleWeighting(order, list(names), numpy.identity(n), numpy.zeros(n))
        except ValueError:
            require(order < 2, "constructor refused")
            w = MultipoleWeighting(2, list(names), numpy.identity(n), numpy.zeros(n))
        lists = [list(i) for i in wanted], list(wanted.values())
        w.set_target_moments(*lists)
        require(lists == ([list(i) for i in wanted], list(wanted.values())), "lists given changed")
    # what the weights should be, from the definition
    keys = sorted(wanted)
    f = {k: moment(k, data, total) for k in keys}
    m = numpy.array([[moment([a + b for a, b in zip(i, j)], data, total) - wanted[i] * f[j] for j in keys] for i in keys])
    scale = numpy.array([moment([2 * a for a in i], data, total) ** 0.5 for i in keys])
    if numpy.linalg.cond(m / numpy.outer(scale, scale)) > 1e6:
        return
    a = numpy.linalg.solve(m, numpy.array([wanted[k] - f[k] for k in keys]))
    factor = [1 + sum(c * math.prod(u ** p for u, p in zip(row, k)) for c, k in zip(a, keys)) for row in data]
    new = [u * v for u, v in zip(old, factor)]
    norm = math.fsum(new) / len(new)
    if abs(norm) < 0.2 * math.fsum(map(abs, new)) / len(new):
        return
    new = [u / norm for u in new]
    before = read(bunch)
    back = w.apply_weights(bunch, case["global"])
    require(back is bunch, "does not return the bunch")
    require(read(bunch) == before and [h[other] for h in bunch] == others, "more than %s changed" % name)
    got = [h[name] for h in bunch]
    big = max(map(abs, new))
    for g, v in zip(got, new):
        require_close(g, v, "weight", 1e-6, 1e-6 * big)
    require_close(math.fsum(got), len(got), "sum of weights", 1e-6, 1e-6 * big)
    total = [x * y for x, y in zip(got, others)]
    if abs(math.fsum(total)) > 0.2 * math.fsum(map(abs, total)):
        for k, s in zip(keys, scale):
            require_close(moment(k, data, total), wanted[k], "moment %r" % (k,), 1e-6, 1e-6 * s * (1 + big))
    if case["again"]:
        w.apply_weights(bunch, case["global"])
        for h, g in zip(bunch, got):
            require_close(h[name], g, "weight when applied again", 1e-5, 1e-5 * big)
    note.label("%d variables" % n, "ellipse" if case["ellipse"] else "%d moments" % len(keys), case["weights"], name)
    note.nontrivial(len(keys) > 1 and (case["weights"] != "one" or any(abs(u) > 0.5 for u in mean)))


@FACETS.add(strategy=lambda: st.tuples(st.integers(1, 3), st.sampled_from(["length", "number", "type", "twice", "twice apart",
                                                                            "high", "zero", "negative"]), st.integers(0, 9)),
            quick=120, thorough=1000,
            rule="lists of different length, indices of the wrong number, type or order, and repeated indices, next "
                 "to each other or not, raise ValueError and leave the moments before in place; non-trivial: all")
def refused(case, note):
    import numpy
    from xboa.bunch.weighting import MultipoleWeighting
    n, kind, where = case
    w = MultipoleWeighting(2, VARIABLES[:n], numpy.identity(n), numpy.zeros(n))
    kept = list(map(list, w.v_g_index_by_power)), list(w.v_g_list)
    lists = [list(i) for i in indices(n, 2)]
    values = [0.1 * i for i in range(len(lists))]
    k = where % len(lists)
    if kind == "length":
        values = values[:-1]
    elif kind == "number":
        lists[k] = lists[k] + [0]
    elif kind == "type":
        lists[k] = [float(u) for u in lists[k]]
    elif kind == "twice":
        lists.insert(k, list(lists[k]))
        values.append(3.0)
    elif kind == "twice apart":
        lists.append(list(lists[0]))
        values.append(3.0)
    elif kind == "high":
        lists[k] = [3] + [0] * (n - 1)
    elif kind == "zero":
        lists[k] = [0] * n
    else:
        lists[k] = [-1] + [2] * (n - 1)
    try:
        w.set_target_moments(lists, values)
    except ValueError:
        pass
    else:
        require(False, "%s: not refused" % kind)
    require((list(map(list, w.v_g_index_by_power)), list(w.v_g_list)) == kept, "moments changed when refused")
    note.label(kind)
    note.nontrivial(True)
