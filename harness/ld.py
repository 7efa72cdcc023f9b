"""Logarithms of the exact density terms (type LD of the specification)."""

import math
from fractions import Fraction

from scipy.special import gammaln, i0e

NEG = float("-inf")


def flog(q):
    """log of a positive Fraction of any size."""
    n, d = q.numerator, q.denominator
    if n == d:
        return 0.0
    # accurate near one
    if abs(n - d) * 4 < d:
        return math.log1p(float(Fraction(n - d, d)))
    return math.log(n) - math.log(d)


def special(f, a):
    a = float(a)
    if f == "gammaln":
        return float(gammaln(a))
    if f == "lni0":
        return math.log(float(i0e(a))) + abs(a)
    if f == "ln2pi":
        return math.log(2 * math.pi)
    if f == "lnpi":
        return math.log(math.pi)
    if f == "ln2":
        return math.log(2)
    raise KeyError(f)


def logld(t):
    """(log value, size of the terms that were added)."""
    if t["q"] == 0:
        return NEG, 1.0
    terms = [flog(t["q"]), float(t["e"])]
    for p in t["pw"]:
        if p["x"] != 0:
            if p["b"] == 0:
                return (NEG if p["x"] > 0 else float("inf")), 1.0
            terms.append(float(p["x"]) * flog(p["b"]))
    for p in t["sp"]:
        if p["x"] != 0:
            terms.append(float(p["x"]) * special(p["f"], p["a"]))
    return math.fsum(terms), sum(abs(x) for x in terms) + 1.0


def logld_weighted(t, ln, gammaln_, i0):
    """The same where logarithms count ln times, log gammas and log Bessels so often."""
    if t["q"] == 0:
        return NEG, 1.0
    w = {"gammaln": gammaln_, "lni0": i0}
    terms = [ln * flog(t["q"]), float(t["e"])]
    terms += [ln * float(p["x"]) * flog(p["b"]) for p in t["pw"] if p["x"] != 0]
    terms += [w.get(p["f"], 0.0) * float(p["x"]) * special(p["f"], p["a"]) for p in t["sp"] if p["x"] != 0]
    return math.fsum(terms), sum(abs(x) for x in terms) + 1.0
