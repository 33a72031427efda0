"""Reference implementations used as oracles: written from the definitions, not from xboa."""
import math

C = 299.792458  # mm/ns


def derived(d, var):
    """Value of a variable of a particle held as a dict of stored variables."""
    if var in d:
        return d[var]
    x, y, px, py, pz = (d.get(k, 0.0) for k in ("x", "y", "px", "py", "pz"))
    if var == "r":
        return math.hypot(x, y)
    if var == "r_squared":
        return x * x + y * y
    if var == "pt":
        return math.hypot(px, py)
    if var == "p":
        return math.sqrt(px * px + py * py + pz * pz)
    if var == "ct":
        return d.get("t", 0.0) * C
    if var == "x'":
        return px / pz
    if var == "y'":
        return py / pz
    if var == "z'":
        return 1.0
    if var in ("t'", "ct'"):
        return -d["energy"] / pz
    if var == "kinetic_energy":
        return d["energy"] - d["mass"]
    return 0.0


class Bunch:
    """hits: list of dicts; w: list of weights"""

    def __init__(self, hits, w=None):
        self.hits = hits
        self.w = list(w) if w is not None else [1.0] * len(hits)

    def weight(self):
        return math.fsum(self.w)

    def mean(self, var):
        return math.fsum(w * derived(h, var) for h, w in zip(self.hits, self.w)) / self.weight()

    def moment(self, variables, means=None):
        means = dict(means or {})
        for v in variables:
            if v not in means:
                means[v] = self.mean(v)
        return math.fsum(w * math.prod(derived(h, v) - means[v] for v in variables)
                         for h, w in zip(self.hits, self.w)) / self.weight()

    def scale(self, variables, means=None):
        """size of the terms summed in a moment: rounding errors are a fraction of this"""
        means = dict(means or {})
        for v in variables:
            if v not in means:
                means[v] = self.mean(v)
        return math.fsum(abs(w) * math.prod(abs(derived(h, v)) + abs(means[v]) for v in variables)
                         for h, w in zip(self.hits, self.w)) / abs(self.weight())

    def cov(self, variables, means=None):
        return [[self.moment([a, b], means) for b in variables] for a in variables]
