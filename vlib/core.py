"""Facets: one generated check each.  A property's check is a list of facets.

A facet is a generator (a Hypothesis strategy that yields plain JSON data: the
case) and an oracle `check(case, note)` which raises when the case breaks the
property.  Keeping cases as plain data means a shrunk failure is a small JSON
file which is replayed without Hypothesis.
"""
import hashlib
import json
import math


class Violation(AssertionError):
    """The code under test broke the property on this case."""


class Note:
    """What a case exercised, as told by the oracle."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        for name in names:
            if name not in self.labels:
                self.labels.append(name)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, rule, hang=120,
                 exhaustive=False, examples=(), setup=None, asan=False, scale=4):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.hang = hang
        self.examples = examples  # fixed cases, run first
        self.exhaustive = exhaustive     # strategy is None: examples() is the whole space
        self.setup = setup
        self.scale = scale            # quick runs this many times as many cases
        self.asan = asan             # run under the address/UB sanitizer build


class Registry(list):
    """facets = Registry(); @facets.add(strategy=..., quick=..., thorough=..., rule=...)"""

    def add(self, strategy=None, quick=300, thorough=5000, rule="", name=None, **kw):
        def wrap(func):
            self.append(Facet(name or func.__name__, strategy, func, quick, thorough,
                              rule or (func.__doc__ or "").strip(), **kw))
            return func
        return wrap


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def require(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def close(a, b, rel=1e-9, abs_=0.0):
    """a and b agree to rel*max(|a|,|b|)+abs_; nan agrees with nan."""
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if a == b:
        return True
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def require_close(got, want, what="", rel=1e-9, abs_=0.0):
    if not close(got, want, rel, abs_):
        raise Violation("%s: got %r, expected %r (rel %g abs %g)" % (what, got, want, rel, abs_))


def raises(excs, func, *args, **kw):
    """True if func raises one of excs; any other exception propagates."""
    try:
        func(*args, **kw)
    except excs:
        return True
    return False
