"""Between the rows of the specification and the library's arguments."""

import math
from fractions import Fraction

import numpy as np

from .core import Mismatch
from .real import D

DIR = ["a0", "a1", "a2", "a3", "a4"]
BIGI = 10**5


# directions with rational cosine and sine (models.qnt)
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (3 / 5, 4 / 5), (-4 / 5, 3 / 5), (5 / 13, -12 / 13), (-15 / 17, -8 / 17),
        (24 / 25, 7 / 25), (-20 / 29, 21 / 29), (-3 / 5, -4 / 5), (12 / 37, 35 / 37)]


def dims_layout(dims):
    """Layout of an object with lanes of the given shape."""
    if len(dims) == 0:
        return {"r": 1, "c": 1, "arr": False, "dims": []}
    if len(dims) == 1:
        return {"r": 1, "c": dims[0], "arr": True, "dims": list(dims)}
    return {"r": dims[0], "c": dims[1], "arr": True, "dims": list(dims)}


def shape_of(layout):
    if "dims" in layout:
        return tuple(layout["dims"])
    r, c = layout["r"], layout["c"]
    if r == 1 and c == 1:
        return (1,) if layout["arr"] else ()
    return (c,) if r == 1 else (r, c)


def join_role(a, b):
    if a == b:
        return a
    if a == "const":
        return b
    if b == "const":
        return a
    return "full"


def to_num(v, ints):
    if isinstance(v, float):
        return v
    if ints and v.denominator == 1 and abs(v) <= BIGI:
        return int(v)
    return float(v)


def arrange(vals, role, layout, tail=()):
    """Values (one per lane, scalars or vectors) -> ndarray of the role's shape."""
    r, c = layout["r"], layout["c"]
    a = np.array(vals).reshape((r, c) + tail)
    if role == "full" and "dims" in layout:
        return a.reshape(tuple(layout["dims"]) + tail)
    if role == "row":
        a = a[0]
    elif role == "col":
        a = a[:, :1]
    elif role == "full":
        a = a[0] if r == 1 else a
    else:
        a = a[0, 0]
    return a


def dress(a, form):
    """The same array in another memory layout or byte order."""
    if form == 1:
        return a.astype(a.dtype.newbyteorder(">"))
    if form == 2 and a.dtype == np.int64 and np.abs(a).max(initial=0) <= 100:
        return a.astype(np.int32)
    if form in (0, 1, 2, 3, 4, 5):
        return a
    if form in (6, 7):  # strided view
        b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if form in (8, 9):
        return np.asfortranarray(a)
    if form == 10:  # reversed view
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    b = a.copy()
    b.setflags(write=False)
    return b


def make(arg, layout, fn=None, tail=()):
    """One argument of the specification as a value for the library."""
    vals = [fn(v) if fn else v for v in arg["vals"]]
    if tail:
        vals = [[to_num(x, arg["ints"]) for x in v] for v in vals]
    else:
        vals = [to_num(v, arg["ints"]) for v in vals]
        if len({isinstance(v, int) for v in vals}) > 1:
            vals = [float(v) for v in vals]
    role, form = arg["role"], arg["form"]
    sys = layout.get("sys")
    if sys is not None:
        exact = [fn(v) if fn else v for v in arg["vals"]]
        return sys.encode(vals[0] if role == "const" and not tail else arrange(vals, role, layout, tail), exact, role, form, tail)
    if arg.get("name") == "x" and not tail and arg["ints"] and form == 3 and set(vals) <= {0, 1}:
        # outcomes of a Bernoulli trial as truth values
        return bool(vals[0]) if role == "const" else arrange(vals, role, layout) == 1
    if role == "const" and not tail:
        v = vals[0]
        if form == 2 and isinstance(v, int) and abs(v) <= 100:
            return np.int32(v)
        if form in (3, 4):
            return np.int64(v) if isinstance(v, int) else np.float64(v)
        if form == 5:
            return np.array(v)
        if form == 6 and layout["arr"] and not layout.get("plain"):
            return np.array([v])
        return v
    if tail and role == "const" and form in (3, 4):
        # the categories as a list or a tuple of numbers
        return (list if form == 3 else tuple)(vals[0])
    return dress(arrange(vals, role, layout, tail), form)


def group(args):
    """Merge the components of vectors (a0.., x0..) into one argument."""
    out, vec = [], {}
    for a in args:
        n = a["name"]
        if len(n) == 2 and n[0] in "axp" and n[1].isdigit():
            vec.setdefault({"a": "alpha", "x": "x", "p": "p"}[n[0]], []).append(a)
        else:
            out.append(a)
    for name, comps in vec.items():
        comps.sort(key=lambda a: a["name"])
        role = comps[0]["role"]
        for a in comps[1:]:
            role = join_role(role, a["role"])
        out.append(
            {
                "name": name,
                "role": role,
                "ints": all(a["ints"] for a in comps),
                "form": comps[0]["form"],
                "vals": [list(v) for v in zip(*[a["vals"] for a in comps])],
                "tail": (len(comps),),
            }
        )
    return out


# the documented order of the parameters, for callers that pass them by position
ORDER = {
    "Beta": ["alpha", "beta"], "Binomial": ["n", "p"], "Exponential": ["lam"], "Gamma": ["alpha", "beta"],
    "NegativeBinomial": ["n", "p"], "Hypergeometric": ["N", "k", "n"], "Poisson": ["lam"],
    "BetaBinomial": ["n", "alpha", "beta"], "BetaNegativeBinomial": ["n", "alpha", "beta"], "Geometric": ["p"],
    "BetaGeometric": ["alpha", "beta"], "Normal": ["mu", "sigma"], "Uniform": ["low", "high"],
    "Pareto": ["x_m", "alpha"], "InverseGamma": ["alpha", "beta"], "StudentT": ["mu", "sigma", "nu"],
    "Lomax": ["alpha", "lam"], "VonMises": ["mu", "kappa"], "ScaledInverseChiSquared": ["nu", "sigma2"],
    "LogNormal": ["mu", "sigma"], "Weibull": ["beta", "theta"], "Dirichlet": ["alpha"], "Multinomial": ["n", "p"],
    "DirichletMultinomial": ["alpha", "n"], "CompoundGamma": ["alpha", "beta", "lam"],
    "NormalGamma": ["mu", "lam", "alpha", "beta"], "GammaProportional": ["p", "q", "r", "s"],
    "GammaKnownRateProportional": ["a", "b", "c"], "BetaProportional": ["p", "q", "k"],
    "VonMisesKnownDirectionProportional": ["c", "r"],
}

# how values are written where the caller supplies the operations
PLAIN = {"order": "up", "base": 0, "angle": "radian"}
DIALECT_BASE = {0: math.exp, 2: lambda v: 2.0 ** float(v), 10: lambda v: 10.0 ** float(v)}
ANGLES = {"radian": 1.0, "degree": 180 / math.pi, "turn": 1 / (2 * math.pi)}


def flip(layout):
    return (lambda v: -v) if layout.get("dialect", PLAIN)["order"] == "down" else None


def flag(a):
    """A boolean, Python's or numpy's."""
    v = bool(a["vals"][0])
    return np.bool_(v) if a["form"] % 3 == 1 else v


def build_args(args, layout):
    """Keyword arguments for a model function."""
    kw = {}
    for a in group(args):
        n = a["name"]
        if n == "one_start" and a["vals"][0] and a["form"] % 3 == 2:
            pass  # the documented default
        elif n == "one_start":
            kw[n] = flag(a) if layout.get("sys") is None else bool(a["vals"][0])
        elif n.startswith("exp:"):
            kw[n[4:]] = make({**a, "ints": False}, layout, DIALECT_BASE[layout.get("dialect", PLAIN)["base"]])
        elif n == "x_max" or n == "x_m":
            kw[n] = make(a, layout, flip(layout))
        else:
            kw[n] = make(a, layout, tail=a.get("tail", ()))
    return kw


def root(q):
    """Square root, exact when the value is a square of a rational."""
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return math.sqrt(q)


def direction(v):
    c, s = DIRS[int(v)]
    return math.atan2(s, c)


def build_dist(cls, args, layout):
    """A distribution object from the arguments of its constructor."""
    by = {a["name"]: a for a in args}
    if cls == "VonMisesKnownConcentration":
        C, S = by["C"], by["S"]
        base = {"role": join_role(C["role"], S["role"]), "ints": False, "form": C["form"]}
        cs = list(zip(C["vals"], S["vals"]))
        unit = ANGLES[layout.get("dialect", PLAIN)["angle"]]
        return D.VonMisesKnownConcentration(
            a=make({**base, "vals": [math.hypot(c, s) for c, s in cs]}, layout),
            b=make({**base, "form": S["form"], "vals": [math.atan2(s, c) * unit for c, s in cs]}, layout),
        )
    kw = build_args([a for a in args if a["name"] != "sigma2" or cls == "ScaledInverseChiSquared"], layout)
    if cls == "VonMises":
        d = by["dir"]
        kw.pop("dir")
        kw["mu"] = make({**d, "ints": False}, layout, direction)
    if "sigma2" in by and cls != "ScaledInverseChiSquared":
        kw["sigma"] = make(by["sigma2"], layout, root)
    if cls in ORDER and kw and list(kw) and all(k in kw for k in ORDER[cls]) and args[0]["form"] % 2:
        rest = {k: v for k, v in kw.items() if k not in ORDER[cls]}
        return getattr(D, cls)(*[kw[k] for k in ORDER[cls]], **rest)
    return getattr(D, cls)(**kw)


# ------------------------------------------------------------------ comparing
def expected_params(cls, row):
    """Row of the specification -> {field of the class: expected value}."""
    if cls == "Dirichlet":
        return {"alpha": [float(row[k]) for k in DIR if k in row]}
    out = {}
    if cls == "DirichletMultinomial" and "a0" in row:
        out["alpha"] = [float(row[k]) for k in DIR if k in row]
        row = {k: v for k, v in row.items() if k not in DIR}
    if cls == "Multinomial" and "p0" in row:
        out["p"] = [float(row[f"p{i}"]) for i in range(4)]
        row = {"n": row["n"]}
    if cls == "VonMises":
        return {"mu": math.atan2(row["s"], row["c"]), "kappa": float(row["kappa"])}
    for k, v in row.items():
        if k == "sigma2" and cls != "ScaledInverseChiSquared":
            out["sigma"] = math.sqrt(v)
        elif k == "one_start":
            out[k] = bool(v)
        else:
            out[k] = float(v)
    return out


def lanes_of(value, layout, tail=(), what="parameter"):
    """A parameter of a result as one value per lane."""
    shape = shape_of(layout)
    try:
        if layout.get("sys") is not None:
            value = layout["sys"].decode(value, shape, tail)
        a = np.asarray(value, dtype=float)
        full = np.broadcast_to(a, shape + tail)
    except Mismatch as e:
        e.clause = f"{what}: {e.clause}"
        raise
    except Exception as e:
        raise Mismatch(f"{what} has a wrong shape or type", got=repr(value)[:300], lanes=str(shape)) from e
    return full.reshape((-1,) + tail)


def close(got, exp, mag, rel=1e-9, absf=1e-12):
    return abs(got - exp) <= rel * abs(exp) + absf * mag or got == exp


def compare_params(obj, cls, rows, layout, mags, what):
    if type(obj).__name__ != cls or type(obj) is not getattr(D, cls):
        raise Mismatch(f"{what}: wrong class", expected=cls, got=type(obj).__name__)
    if cls == "VonMisesKnownConcentration":
        a = lanes_of(obj.a, layout, what=f"{what}: a")
        b = lanes_of(obj.b, layout, what=f"{what}: b") / ANGLES[layout.get("dialect", PLAIN)["angle"]]
        for l, row in enumerate(rows):
            for name, got, exp in (
                ("a*cos(b)", a[l] * math.cos(b[l]), float(row["C"])),
                ("a*sin(b)", a[l] * math.sin(b[l]), float(row["S"])),
            ):
                if not close(got, exp, float(mags[l])) or a[l] < 0:
                    raise Mismatch(f"{what}: wrong {name}", lane=l, got=got, expected=exp, a=a[l], b=b[l])
        return
    exps = [expected_params(cls, r) for r in rows]
    for f in exps[0]:
        tail = (len(exps[0][f]),) if isinstance(exps[0][f], list) else ()
        got = lanes_of(getattr(obj, f), layout, tail, what=f"{what}: {f}")
        if f == "x_m" and flip(layout):
            got = -got
        for l in range(len(rows)):
            for g, e in zip(np.atleast_1d(got[l]), np.atleast_1d(exps[l][f])):
                if not close(float(g), float(e), float(mags[l])):
                    raise Mismatch(
                        f"{what}: wrong {f}", lane=l, got=float(g), expected=float(e), row={k: str(v) for k, v in rows[l].items()}
                    )
