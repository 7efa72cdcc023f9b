"""Replaying behaviours of spec/algebra.qnt on the implementation."""

import math

import numpy as np

from . import lanes as L
from . import real
from .core import Mismatch
from .learn import DISCRETE, check_log, log_density, same_snapshot, snapshot, same_outcome
from .ld import logld
from .real import D, call

VECTOR = ("Dirichlet", "Multinomial", "DirichletMultinomial")
ATTR = {"dir": "mu"}


def attr_of(cls, field):
    if field == "sigma2" and cls != "ScaledInverseChiSquared":
        return "sigma"
    if field == "dir":
        return "mu"
    if len(field) == 2 and field[1].isdigit():
        return {"a": "alpha", "p": "p"}[field[0]]
    return field


def real_key(k):
    if k["kind"] == "int":
        return np.int64(k["i"]) if k["i"] % 2 else k["i"]
    if k["kind"] == "slice":
        return slice(k["a"] if k["hasA"] else None, k["b"] if k["hasB"] else None, k["s"] if k["hasS"] else None)
    if k["kind"] == "mask":
        return np.array(k["m"], dtype=bool)
    if k["kind"] == "array":
        return np.array(k["l"], dtype=int)
    return list(k["l"])


class Algebra:
    def __init__(self, trace, res, opts):
        self.tr, self.res, self.o = trace, res, opts
        self.real, self.frozen = [], []

    def run(self):
        if self.o.get("purity"):
            real.JOURNAL = []
        try:
            for i, s in enumerate(self.tr):
                op = s["op"]
                self.res.act(op["act"])
                self.s = s
                self.where = {"step": i, "act": op["act"], "ctor": op["ctor"], "src": op["src"]}
                try:
                    getattr(self, "do_" + op["act"])(op)
                    self.check_frozen(op["act"])
                except Mismatch as e:
                    e.info = {**e.info, **self.where}
                    raise
            if self.o.get("purity"):
                repeat_journal()
        finally:
            real.JOURNAL = None

    # ------------------------------------------------------------ pool
    def keep(self, obj):
        self.real.append(obj)
        self.frozen.append(snapshot(obj))

    def check_frozen(self, after):
        for i, (o, f) in enumerate(zip(self.real, self.frozen)):
            now = snapshot(o)
            if not same_snapshot(f, now):
                raise Mismatch("an existing distribution changed", object=i, before=repr(f)[:300], now=repr(now)[:300], after=after)

    def layout(self, o):
        # plain: no arrays of one element standing for all lanes (indexing is about full shapes)
        return {**L.dims_layout(o["dims"]), "plain": bool(self.o.get("plain"))}

    def rows(self, o):
        n = math.prod(o["dims"])
        rows = [{a["name"]: a["vals"][l] for a in o["args"]} for l in range(n)]
        if o["cls"] == "VonMises":
            rows = [{"c": L.DIRS[int(r["dir"])][0], "s": L.DIRS[int(r["dir"])][1], "kappa": r["kappa"]} for r in rows]
        return rows

    def compare(self, obj, o, what, mag=None):
        rows = self.rows(o)
        lay = L.dims_layout(o["dims"])
        if not rows:
            if type(obj) is not getattr(D, o["cls"]):
                raise Mismatch(f"{what}: wrong class", got=type(obj).__name__)
            return
        mags = [mag or (1.0 + max(abs(float(v)) for v in r.values())) for r in rows]
        L.compare_params(obj, o["cls"], rows, lay, mags, what)

    # ------------------------------------------------------------ actions
    def do_create(self, op):
        o = self.s["pool"][op["dst"]]
        obj = call(f"{o['cls']}(...)", L.build_dist, o["cls"], op["args"], self.layout(o), res=self.res)
        self.res.count(f"create {o['cls']} {len(o['dims'])}d")
        self.compare(obj, o, "a new distribution")
        self.keep(obj)

    def do_assign(self, op):
        o = self.s["pool"][op["src"]]
        lay = self.layout(o)
        a = op["args"][0]
        cls, obj = o["cls"], self.real[op["src"]]
        self.res.count(f"assign {cls}.{a['name']}")
        if a["name"] == "dir":
            v = L.make({**a, "ints": False}, lay, L.direction)
        elif a["name"] == "sigma2" and cls != "ScaledInverseChiSquared":
            v = L.make(a, lay, L.root)
        elif a["name"] == "one_start":
            v = L.flag(a)
        else:
            v = L.make(a, lay)
        # the object may have been read before: make sure its view exists
        if cls not in ("NormalInverseGamma", "NormalGamma"):
            call(f"{cls}.dist", lambda: obj.dist, res=self.res)
        setattr(obj, attr_of(cls, a["name"]), v)
        self.frozen[op["src"]] = snapshot(obj)

    def points(self, cls, at, dims):
        if cls in ("Multinomial", "DirichletMultinomial"):
            return np.array([[int(p[f"x{i}"]) for i in range(4)] for p in at]).reshape(tuple(dims) + (4,))
        if cls == "Dirichlet":
            return np.array([float(at[0][f"p{i}"]) for i in range(4)])
        if cls == "VonMises":
            v = [math.atan2(p["s"], p["c"]) for p in at]
        elif cls == "LogNormal":
            v = [math.exp(p["lnx"]) if "lnx" in p else float(p["x"]) for p in at]
        else:
            v = [float(p["x"]) for p in at]
        return np.array(v).reshape(tuple(dims))

    def do_read(self, op):
        o = self.s["pool"][op["src"]]
        obj, cls, dims = self.real[op["src"]], o["cls"], o["dims"]
        self.res.count(f"read {cls} {len(dims)}d")
        n = math.prod(dims)
        disc = cls in DISCRETE
        if not (cls == "Dirichlet" and dims):
            for pt in op["pts"]:
                if cls in ("Multinomial", "DirichletMultinomial"):
                    x = self.points(cls, pt["at"], dims)
                else:
                    x = self.points(cls, pt["at"], dims)
                got = call(f"{cls}.dist", log_density, obj, cls, x if dims or np.ndim(x) else float(x), disc, res=self.res)
                got = np.asarray(got, dtype=float)
                if got.size != n:
                    raise Mismatch(f"{cls}.dist: density has a wrong shape", got=got.shape, lanes=dims)
                got = got.reshape(-1)
                for l in range(n):
                    exp, size = logld(pt["ld"][l])
                    check_log(got[l], exp, size, f"{cls}.dist has another density than documented", lane=l,
                              at={k: str(v) for k, v in pt["at"][l].items()},
                              params={a["name"]: str(a["vals"][l]) for a in o["args"]})
        if op["mv"] and op["mv"][0] and hasattr(obj.dist, "mean"):
            d = obj.dist
            if cls == "Dirichlet":
                got = np.asarray(call("Dirichlet.dist.mean", d.mean, res=self.res)).reshape(n, 4)
                for l in range(n):
                    self.near(got[l], [float(v) for v in op["mv"][l]], f"{cls}.dist has another mean", lane=l)
            else:
                m = np.broadcast_to(call(f"{cls}.dist.mean", d.mean, res=self.res), tuple(dims)).reshape(-1)
                v = np.broadcast_to(call(f"{cls}.dist.var", d.var, res=self.res), tuple(dims)).reshape(-1)
                for l in range(n):
                    if op["mv"][l]:
                        self.near(m[l], float(op["mv"][l][0]), f"{cls}.dist has another mean", lane=l)
                        self.near(v[l], float(op["mv"][l][1]), f"{cls}.dist has another variance", lane=l)
        if op["tail"]:
            self.total(obj, op, dims)

    def near(self, got, exp, what, **info):
        if not np.allclose(got, exp, rtol=1e-8, atol=1e-10):
            raise Mismatch(what, got=np.asarray(got).tolist(), expected=exp, **info)

    def total(self, obj, op, dims):
        start = 1 if obj.one_start else 0
        x = np.arange(start, start + 60).reshape((60,) + (1,) * len(dims))
        p = call("BetaGeometric.dist.pmf", obj.dist.pmf, x, res=self.res)
        s = np.broadcast_to(np.sum(p, axis=0), tuple(dims)).reshape(-1)
        for l, t in enumerate(op["tail"]):
            big = max(float(np.max(np.abs(obj.alpha))), float(np.max(np.abs(obj.beta))))
            if abs(s[l] + float(t) - 1) > 1e-9 + 1e-13 * big or np.min(p) < 0:  # betaln cancels
                raise Mismatch("beta-geometric mass does not total one", lane=l, sum=float(s[l]), tail=float(t))

    def do_index(self, op):
        src = self.s["pool"][op["src"]]
        obj = self.real[op["src"]]
        key = real_key(op["key"])
        self.res.count(f"index {op['key']['kind']} {'ok' if op['ok'] else 'outside'}")
        self.where["key"] = repr(key)
        if not op["ok"]:
            self.res.impl_calls += 1
            try:
                out = obj[key]
            except Exception:
                return
            raise Mismatch("an index outside the lanes was accepted", cls=src["cls"], got=repr(out)[:300])
        out = call(f"{src['cls']}[{key!r}]", obj.__getitem__, key, res=self.res)
        o = self.s["pool"][op["dst"]]
        self.compare(out, o, f"{src['cls']}[{key!r}]")
        for a in o["args"]:
            f = attr_of(o["cls"], a["name"])
            was, now = getattr(obj, f), getattr(out, f)
            tail = (4,) if f != "n" and o["cls"] in VECTOR else ()
            srole = [b["role"] for b in src["args"] if b["name"] == a["name"]][0]
            if srole == "const" and not tail:
                if np.ndim(now) != np.ndim(was) or not np.array_equal(now, was):
                    raise Mismatch("indexing changed a scalar parameter", field=f, before=repr(was), after=repr(now))
            elif np.shape(now) != tuple(o["dims"]) + tail:
                raise Mismatch("indexing gave a wrong shape", field=f, got=np.shape(now), expected=o["dims"], key=repr(key))
        self.keep(out)

    def do_scale(self, op):
        src, o = self.s["pool"][op["src"]], self.s["pool"][op["dst"]]
        obj = self.real[op["src"]]
        lay = L.dims_layout(o["dims"])
        k = L.make(op["args"][0], lay)
        if op["side"] == "left" and isinstance(k, np.ndarray):
            k = k.item()  # an array on the left would ask numpy for an array of distributions
        self.res.count(f"scale {src['cls']} {op['side']}")
        fn = (lambda: k * obj) if op["side"] == "left" else (lambda: obj * k)
        out = call(f"{src['cls']} times {k!r} ({op['side']})", fn, res=self.res)
        mag = 1.0 + max(abs(float(v)) for r in self.rows(o) for v in r.values())
        self.compare(out, o, f"{src['cls']} scaled", mag)
        self.keep(out)

    def do_add(self, op):
        o = self.s["pool"][op["dst"]]
        a, b = self.real[op["src"]], self.real[op["src2"]]
        fn = (lambda: a + b) if op["side"] == "left" else (lambda: b + a)
        self.res.count("add Poisson")
        out = call("Poisson + Poisson", fn, res=self.res)
        self.compare(out, o, "Poisson + Poisson")
        self.keep(out)

    def do_alternative(self, op):
        o = self.s["pool"][op["dst"]]
        lay = L.dims_layout(o["dims"])
        cls, name = op["ctor"].split(".")[:2]
        kw = {a["name"]: L.make(a, lay) for a in op["args"]}
        if cls == "Dirichlet":
            kw = {"n": 4}
        self.res.count(f"constructor {op['ctor']}")
        out = call(op["ctor"], getattr(getattr(D, cls), name), **kw, res=self.res)
        self.where["kw"] = repr(kw)[:300]
        if np.prod(o["dims"]) > 0:
            self.compare(out, o, op["ctor"])
        # classmethods build the class they are called on
        sub = type("Sub", (getattr(D, cls),), {})
        other = call(op["ctor"] + " of a subclass", getattr(sub, name), **kw, res=self.res)
        if not isinstance(other, getattr(D, cls)):
            raise Mismatch(f"{op['ctor']} of a subclass is not of the class")
        self.keep(out)

    def do_convert(self, op):
        o = self.s["pool"][op["dst"]]
        lay = L.dims_layout(o["dims"])
        obj = self.real[op["src"]]
        c = op["ctor"]
        kw = {a["name"]: L.make(a, lay) for a in op["args"]}
        self.res.count(f"convert {c}")
        if "." in c:
            cls, name = c.split(".")
            out = call(c, getattr(getattr(D, cls), name), inverse_gamma=obj, **kw, res=self.res)
        elif c == "to_inverse_gamma":
            out = call(c, obj.to_inverse_gamma, res=self.res)
        else:
            out = call(c, lambda: getattr(obj, c), res=self.res)
        self.compare(out, o, c)
        self.keep(out)


def repeat_journal():
    """Every call of the history once more, last first: the results must agree."""
    calls, real.JOURNAL = real.JOURNAL, None
    for what, fn, a, k, out in reversed(calls):
        again = call(what + " (repeated)", fn, *a, **k)
        if not same_outcome(out, again):
            raise Mismatch("a call repeated later gives another result", call=what,
                           first=repr(snapshot(out))[:300], again=repr(snapshot(again))[:300])


def replayer(opts):
    def go(trace, res):
        Algebra(trace, res, opts).run()

    return go
