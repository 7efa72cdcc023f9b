"""Replaying behaviours of spec/multi.qnt on the implementation."""

import math
from fractions import Fraction

import numpy as np

from . import numbers
from . import real
from .algebra import real_key
from .core import Mismatch
from .lanes import dress, root
from .learn import same_snapshot, snapshot
from .ld import NEG, logld
from .real import D, M, call

FIELDS = {
    "MultivariateNormal": ("mu", "cov", ()),
    "MultivariateStudentT": ("mu", "sigma", ("nu",)),
    "NormalInverseGamma": ("mu", "delta_inverse", ("alpha", "beta")),
    "InverseWishart": (None, "psi", ("nu",)),
    "NormalInverseWishart": ("mu", "psi", ("nu", "kappa")),
    "NormalWishart": ("mu", "W", ("nu", "lam")),
    "Wishart": (None, "V", ("nu",)),
    "InverseGamma": (None, None, ("alpha", "beta")),
}


def fr(m):
    return [[Fraction(x, m["d"]) for x in row] for row in m["m"]]


def arr(rows, form, tail=None):
    """Rows of fractions as an array (integers where possible for some forms)."""
    if form in (0, 3, 8, 11) and all(v.denominator == 1 for r in rows for v in r) and rows:
        a = np.array([[int(v) for v in r] for r in rows])
    else:
        a = np.array([[float(v) for v in r] for r in rows])
    if not rows:
        a = np.zeros((0, tail))
    return dress(a, form)


def vec(m, form):
    a = arr(fr(m), 0 if form in (0, 3, 8, 11) else 1)[:, 0]
    return dress(np.ascontiguousarray(a), form)


def num(v, form):
    if v.denominator == 1 and form % 2:
        return np.int64(int(v)) if form == 5 else int(v)
    return np.float64(v) if form == 6 else float(v)


def gauss(m):
    """Inverse by elimination, whatever the entries are."""
    n = len(m)
    a = [[m[i, j] for j in range(n)] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        d = a[i][i]
        a[i] = [v / d for v in a[i]]
        for j in range(n):
            if j != i:
                f = a[j][i]
                a[j] = [x - f * y for x, y in zip(a[j], a[i])]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = a[i][n + j]
    return out


class Multi:
    def __init__(self, trace, res, opts):
        self.tr, self.res, self.o = trace, res, opts
        self.real, self.frozen, self.args, self.kw = [], [], [], []
        self.model = trace[0]["model"]
        self.unit, self.sys, self.box = 1, None, None
        if "numbers" in trace[0]:
            d = trace[0]["numbers"]
            self.unit, self.sys = d["unit"], d["system"]
            res.count(f"system {self.sys}, unit {self.unit}")
            self.box = {"fraction": numbers.to_fraction, "user": lambda v: numbers.Num(float(v)), "float": None}[self.sys]

    # ------------------------------------------------------------ numbers
    def enc(self, x):
        """A value (or all values of a dict) in the number system of this history."""
        if isinstance(x, dict):
            return {k: self.enc(v) for k, v in x.items()}
        if self.box is None:
            return x
        if np.ndim(x) == 0:
            return self.box(x)
        a = np.asarray(x)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = self.box(a[i])
        return out

    def dec(self, x):
        if self.box is None:
            return x
        a = np.asarray(x, dtype=object)
        out = np.empty(a.shape)
        for i in np.ndindex(a.shape):
            out[i] = numbers.unwrap(a[i])
        return out if a.shape else out.item()

    def supplied(self, fn):
        """Operations that fit the number system and the unit, and nothing else."""
        if self.sys is None:
            return {}
        out = {}
        if fn in ("linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision",
                  "multivariate_normal_known_precision_predictive") and self.box is not None:
            out["inv"] = gauss
        if fn == "linear_regression_predictive" and (self.unit != 1 or self.box is not None):
            out["eye"] = lambda n: self.enc(self.unit * np.eye(n))
        if fn == "multivariate_normal" and self.unit != 1:
            out["outer"] = lambda a, b: np.outer(a, b) * self.unit
        return out

    def run(self):
        for i, s in enumerate(self.tr):
            op = s["op"]
            self.begin(i)
            self.s, self.p = s, s["p"]
            self.res.act(op["act"])
            self.where = {"step": i, "act": op["act"], "fn": op["fn"], "model": self.model, "p": s["p"], "src": op["src"], "form": op["form"]}
            try:
                getattr(self, "do_" + op["act"])(op)
                self.check_frozen(op["act"])
            except Mismatch as e:
                e.info = {**e.info, **self.where}
                raise

    def begin(self, i):
        """A hook for sessions."""

    # ------------------------------------------------------------ pool
    def keep(self, obj, kw=None):
        self.real.append(obj)
        self.kw.append(kw)
        if any(obj is o for o in self.real[:-1]):
            raise Mismatch("a result is an earlier object itself")
        self.frozen.append(snapshot(obj))
        if kw:
            self.args.append((kw, snapshot(kw)))

    def check_frozen(self, after):
        for i, (o, f) in enumerate(zip(self.real, self.frozen)):
            now = snapshot(o)
            if not same_snapshot(f, now):
                raise Mismatch("an existing distribution changed", object=i, before=repr(f)[:300], now=repr(now)[:300], after=after)
        for kw, f in self.args:
            if not same_snapshot(f, snapshot(kw)):
                raise Mismatch("an argument changed", after=after)

    def build(self, o, form):
        fm, fmat, fs = FIELDS[o["cls"]]
        kw = {k: num(o["sc"][k], form) for k in fs}
        if fm:
            kw[fm] = vec(o["mu"], form)
        if fmat:
            kw[fmat] = arr(fr(o["mat"]), form)
        return getattr(D, o["cls"])(**self.enc(kw))

    def compare(self, obj, o, what):
        if self.box is not None:
            obj = type(obj)(**{k: self.dec(v) if v is not None else None for k, v in real.params(obj).items()})
        cls = o["cls"]
        if type(obj) is not getattr(D, cls):
            raise Mismatch(f"{what}: wrong class", expected=cls, got=type(obj).__name__)
        if cls in ("Normal", "StudentT"):
            v = fr(o["mat"])[0][0]
            exp = {"mu": float(fr(o["mu"])[0][0]), "sigma": float(root(v)), **{k: float(x) for k, x in o["sc"].items()}}
            for k, e in exp.items():
                g = getattr(obj, k)
                if np.ndim(g) != 0 or not abs(float(g) - e) <= 1e-7 * (abs(e) + 1e-3):
                    raise Mismatch(f"{what}: wrong {k}", got=repr(g), expected=e)
            return
        fm, fmat, fs = FIELDS[cls]
        if fm:
            self.near(getattr(obj, fm), [float(r[0]) for r in fr(o["mu"])], f"{what}: wrong {fm}")
        if fmat:
            exp = np.array([[float(v) for v in r] for r in fr(o["mat"])])
            got = getattr(obj, fmat)
            self.near(got, exp, f"{what}: wrong {fmat}")
            g = np.asarray(got, float)
            if np.max(np.abs(g - g.T)) > 1e-8 * np.max(np.abs(g)):
                raise Mismatch(f"{what}: {fmat} is not symmetric", got=g.tolist())
        for k in fs:
            e, g = float(o["sc"][k]), getattr(obj, k)
            size = abs(e)
            if k == "beta" and o["cls"] == "NormalInverseGamma" and "c" in o["truth"]:
                size += abs(float(o["truth"]["c"]))
            try:
                ok = np.size(g) == 1 and abs(float(np.asarray(g).reshape(())) - e) <= 1e-9 * size
            except (TypeError, ValueError):
                ok = False
            if not ok:
                raise Mismatch(f"{what}: wrong {k}", got=repr(g), expected=e)

    def near(self, got, exp, what):
        exp = np.asarray(exp, float)
        try:
            got = np.asarray(got, float)
        except Exception as e:
            raise Mismatch(what, got=repr(got)[:200]) from e
        if got.shape != exp.shape:
            raise Mismatch(f"{what} (dimension)", got=got.shape, expected=exp.shape)
        if exp.size and not np.max(np.abs(got - exp)) <= 1e-7 * (np.max(np.abs(exp)) + (1e-6 if exp.ndim == 1 else 0)):
            raise Mismatch(what, got=got.tolist(), expected=exp.tolist())

    def density(self, obj, pts, dst, what):
        o = dst
        for pt in pts:
            if o["cls"] in ("InverseWishart", "Wishart"):
                x = np.array([[float(v) for v in r] for r in fr(pt["mat"])])
            else:
                x = np.array([float(v) for v in pt["at"]])
            got = call(f"{o['cls']}.dist", lambda x=x: obj.dist.logpdf(x), res=self.res)
            if np.size(got) != 1:
                raise Mismatch(f"{what}: density has a wrong shape", got=np.shape(got))
            got = float(np.ravel(got)[0])
            exp, size = logld(pt["ld"])
            if exp == NEG or not abs(got - exp) <= 1e-7 + 1e-8 * size:
                raise Mismatch(what, at=x.tolist(), got_log=got, expected_log=exp)

    # ------------------------------------------------------------ actions
    def do_prior(self, op):
        o = self.s["pool"][0]
        obj = call(f"{o['cls']}(...)", self.build, o, op["form"], res=self.res)
        self.res.count(f"prior {o['cls']}")
        self.keep(obj)

    def update_kw(self, op, n):
        b, f = op["batch"], op["form"]
        if self.model == "linear_regression":
            y = [[v] for v in b["y"]]
            return {"X": arr(b["x"], f, n), "y": dress(np.ascontiguousarray(arr(y, 1, 1)[:, 0]), f)}
        if self.model == "multivariate_normal_known_mean":
            return {"X": arr(b["x"], f, n), "mu": vec(op["known"], f)}
        if self.model == "multivariate_normal":
            return {"X": arr(b["x"], f, n)}
        name = "cov" if self.model.endswith("covariance") else "precision"
        total = sum(b["m"])
        return {"n": np.int64(total) if f == 5 else float(total) if f == 7 else total, "x_bar": vec(op["xbar"], f), name: arr(fr(op["known"]), f)}

    def update(self, prior, kw):
        return call(self.model, getattr(M, self.model), **kw, **self.supplied(self.model), prior=prior, res=self.res)

    def do_update(self, op):
        kw = self.enc(self.update_kw(op, self.p))
        src = self.real[op["src"]]
        out = self.other_outer(op, self.update(src, kw))
        empty = not op["batch"]["x"]
        self.res.count(f"update {self.model} p={self.p}{' (empty)' if empty else ''}")
        self.compare(out, self.s["pool"][op["dst"]], f"posterior of {self.model}")
        self.keep(out, kw)

    def other_outer(self, op, out):
        """The supplied outer product shows in the scale matrix, once."""
        if self.unit == 1 or self.model != "multivariate_normal":
            return out
        o = self.s["pool"][op["dst"]]
        shift = np.array([[float(v) for v in r] for r in fr(op["known"])]) * (self.unit - 1)
        spec = np.array([[float(v) for v in r] for r in fr(o["mat"])])
        got = np.asarray(self.dec(out.psi), float)
        if got.shape != spec.shape or np.max(np.abs(got - spec - shift)) > 1e-8 * (np.max(np.abs(spec)) + np.max(np.abs(shift))):
            raise Mismatch("the supplied outer product is not used", got=got.tolist(), expected=(spec + shift).tolist())
        return type(out)(mu=out.mu, kappa=out.kappa, nu=out.nu, psi=self.enc(spec))

    def do_joint(self, op):
        kw = self.enc(self.update_kw(op, self.p))
        out = self.other_outer(op, self.update(self.real[0], kw))
        self.res.count(f"joint {self.model}")
        self.compare(out, self.s["pool"][op["dst"]], f"joint posterior of {self.model}")
        self.keep(out, kw)

    def do_reorder(self, op):
        out = self.real[0]
        for j in op["order"]:
            out = self.update(out, self.kw[j])
        self.res.count(f"reorder {self.model}")
        self.compare(out, self.s["pool"][op["dst"]], f"posterior of {self.model} in another order")
        self.keep(out)

    def do_predict(self, op):
        f = op["form"]
        if self.model == "linear_regression":
            # (in another unit of the response, the design is scaled with it)
            kw = {"X": arr(op["batch"]["x"], f) * (1 if self.unit == 1 else self.unit**0.5)}
        elif self.model == "multivariate_normal":
            kw = {}
        else:
            kw = {"cov" if self.model.endswith("covariance") else "precision": arr(fr(op["known"]), f)}
        fn = self.model + "_predictive"
        kw = self.enc(kw)
        out = call(fn, getattr(M, fn), **kw, **self.supplied(fn), distribution=self.real[op["src"]], res=self.res)
        self.res.count(f"predict {self.model} p={self.p}")
        o = self.s["pool"][op["dst"]]
        if self.unit != 1 and self.model == "linear_regression" and type(out).__name__ == o["cls"]:
            out = type(out)(mu=out.mu / self.unit**0.5, sigma=out.sigma / self.unit, nu=out.nu)
        self.compare(out, o, fn)
        if self.box is not None:
            self.keep(out, kw)
            return
        self.density(out, op["pts"], o, f"{fn}: density of an outcome is not the marginal likelihood")
        self.keep(out, kw)

    def do_read(self, op):
        o = self.s["pool"][op["src"]]
        self.res.count(f"read {o['cls']}")
        self.density(self.real[op["src"]], op["pts"], o, f"{o['cls']}.dist has another density than documented")

    def do_assign(self, op):
        o = self.s["pool"][op["src"]]
        obj = self.real[op["src"]]
        fm, fmat, fs = FIELDS[o["cls"]]
        call(f"{o['cls']}.dist", lambda: obj.dist, res=self.res)
        if op["fn"] == "mu":
            obj.mu = vec(o["mu"], 1)
        elif op["fn"] == "mat":
            setattr(obj, fmat, arr(fr(o["mat"]), 1))
        else:
            obj.nu = float(o["sc"]["nu"])
        self.res.count(f"assign {o['cls']}.{op['fn']}")
        self.frozen[op["src"]] = snapshot(obj)

    def do_index(self, op):
        obj = self.real[op["src"]]
        cls = self.s["pool"][op["src"]]["cls"]
        key = real_key(op["key"])
        self.res.count(f"marginal {cls} {op['key']['kind']} {'ok' if op['ok'] else 'outside'}")
        self.where["key"] = repr(key)
        if not op["ok"]:
            self.res.impl_calls += 1
            try:
                out = obj[key]
            except Exception:
                return
            raise Mismatch("an index outside the components was accepted", cls=cls, got=repr(out)[:300])
        out = call(f"{cls}[{key!r}]", obj.__getitem__, key, res=self.res)
        self.compare(out, self.s["pool"][op["dst"]], f"{cls}[{key!r}]")
        self.keep(out)

    def do_convert(self, op):
        o = self.s["pool"][op["dst"]]
        src = self.real[op["src"]]
        c, f = op["fn"], op["form"]
        self.res.count(f"convert {c} {o['cls']}")
        if c == "from_inverse_wishart":
            out = call(c, D.NormalInverseWishart.from_inverse_wishart, mu=vec(o["mu"], f), kappa=num(o["sc"]["kappa"], f),
                       inverse_wishart=src, res=self.res)
        elif c == "from_inverse_gamma":
            out = call(c, D.NormalInverseGamma.from_inverse_gamma, mu=vec(o["mu"], f), inverse_gamma=src,
                       delta_inverse=arr(fr(o["mat"]), f), res=self.res)
            if out.nu is not None:
                raise Mismatch("from_inverse_gamma sets both precisions")
        else:
            out = call(c, lambda: getattr(src, c), res=self.res)
        self.compare(out, o, c)
        self.keep(out)


def replayer(opts):
    def go(trace, res):
        Multi(trace, res, opts).run()

    return go


__all__ = ["replayer", "math"]
