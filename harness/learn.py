"""Replaying behaviours of spec/learn.qnt on the implementation.

The pool of the specification is mirrored by a pool of real objects. Each
recorded operation is executed on the real objects (results are chained, never
rebuilt from the specification) and its result compared with the new member of
the specified pool.
"""

import inspect
import math
from dataclasses import fields, is_dataclass

import numpy as np
from scipy.special import i0

from . import lanes as L
from . import numbers
from . import real
from .core import Mismatch
from .ld import NEG, logld, logld_weighted
from .real import D, M, call

# argument through which the belief is passed
DEPRECATED = {"normal_normal_inverse_gamma", "normal_normal_inverse_gamma_predictive"}


def outcome_args(cls, at, layout):
    """Points of evaluation, one per lane."""
    if cls in ("DirichletMultinomial", "Multinomial"):
        v = np.array([[float(p[f"x{i}"]) for i in range(4)] for p in at]).astype(int)
        return v.reshape(L.shape_of(layout) + (4,))
    return np.array([float(p["x"]) for p in at]).reshape(L.shape_of(layout))


def log_density(obj, cls, x, discrete):
    d = obj.dist
    with np.errstate(all="ignore"):
        if discrete:
            return d.logpmf(x) if hasattr(d, "logpmf") else np.log(d.pmf(x))
        return d.logpdf(x) if hasattr(d, "logpdf") else np.log(d.pdf(x))


DISCRETE = {
    "Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial",
    "BetaNegativeBinomial", "Geometric", "BetaGeometric", "DirichletMultinomial", "Multinomial",
}


RULES = {
    "binomial_beta": [("get_binomial_beta_posterior_params", ("alpha", "beta"), ("alpha", "beta", "n", "x"))],
    "categorical_dirichlet": [("get_categorical_dirichlet_posterior_params", ("alpha",), ()),
                              ("get_dirichlet_posterior_params", ("alpha",), ("alpha", "x"))],
    "multinomial_dirichlet": [("get_multi_categorical_dirichlet_posterior_params", ("alpha",), ())],
    "poisson_gamma": [("get_poisson_gamma_posterior_params", ("alpha", "beta"), ())],
    "exponential_gamma": [("get_exponential_gamma_posterior_params", ("alpha", "beta"), ())],
}


class Learn:
    def __init__(self, trace, res, opts):
        self.tr = trace
        self.res = res
        self.o = opts
        s0 = trace[0]
        self.layout = s0["layout"]
        self.n = self.layout["r"] * self.layout["c"]
        self.model = s0["model"]
        self.real = []
        self.mag = []
        self.kw = []
        self.frozen = []
        self.made = {}
        if opts.get("plain"):
            self.layout["plain"] = True
        self.ops = {}
        if "numbers" in s0:
            self.speak(s0["numbers"])

    # -------------------------------------------------------------- numbers
    def speak(self, d):
        """Another number system, and operations that fit the way values are written."""
        sys = numbers.system(d["system"], self.layout)
        self.layout["sys"] = sys
        self.layout["dialect"] = d
        self.res.count(f"system {d['system']}")
        unit = L.ANGLES[d["angle"]]
        lift = sys.lift
        own = {
            "max_fn": (lambda a, b: min(a, b)) if d["order"] == "down" else (lambda a, b: max(a, b)),
            "ln": {0: lambda a: math.log(a), 2: lambda a: math.log2(a), 10: lambda a: math.log10(a)}[d["base"]],
            "sin": lambda a: math.sin(a / unit),
            "cos": lambda a: math.cos(a / unit),
            "arctan2": lambda a, b: math.atan2(a, b) * unit,
        }
        self.ops = {k: lift(f) for k, f in own.items()}
        if d["system"] == "series":  # the defaults know series
            if d["order"] == "up":
                del self.ops["max_fn"]
            if d["base"] == 0:
                del self.ops["ln"]
            if d["angle"] == "radian":
                del self.ops["sin"], self.ops["arctan2"], self.ops["cos"]

    ACCEPTS = {"uniform_pareto": ["max_fn"], "pareto_gamma": ["ln"], "von_mises_known_concentration": ["sin", "cos", "arctan2"]}

    def supplied(self, fn):
        return {k: self.ops[k] for k in self.ACCEPTS.get(fn, []) if k in self.ops}

    # -------------------------------------------------------------- purity
    def freeze(self, tag, obj):
        """Remember the contents of something that must not change."""
        self.frozen.append((tag, obj, snapshot(obj)))

    def check_frozen(self, after):
        for tag, obj, snap in self.frozen:
            now = snapshot(obj)
            if not same_snapshot(snap, now):
                raise Mismatch(f"{tag} changed", after=after, before=repr(snap)[:400], now=repr(now)[:400])

    def begin(self, i):
        """A hook for sessions."""

    # -------------------------------------------------------------- run
    def run(self):
        for i, s in enumerate(self.tr):
            op = s["op"]
            act = op["act"]
            self.begin(i)
            self.res.act(act)
            self.where = {"step": i, "act": act, "fn": op["fn"], "model": self.model, "layout": self.layout,
                          "src": op["src"], "args": [{k: (str([str(v) for v in a[k]]) if k == "vals" else a[k]) for k in a} for a in op["args"]]}
            try:
                getattr(self, "do_" + act)(s, op)
                if self.o.get("purity"):
                    self.check_frozen(f"{act} {op['fn']}")
            except Mismatch as e:
                e.info = {**e.info, **self.where}
                raise

    def mags(self, op, src):
        base = self.mag[src] if src >= 0 else [0.0] * self.n
        return [b + float(m) for b, m in zip(base, op["mag"] or [1] * self.n)]

    def add(self, obj, kw, mag):
        if self.layout.get("sys") is not None:
            obj = self.layout["sys"].settle(obj)
        if any(obj is o for o in self.real):
            raise Mismatch("a result is an earlier object itself")
        self.real.append(obj)
        self.kw.append(kw)
        self.mag.append(mag)
        if self.o.get("purity"):
            self.freeze("an earlier distribution", obj)

    def do_prior(self, s, op):
        obj = call(f"{op['cls']}(...)", L.build_dist, op["cls"], op["args"], self.layout, res=self.res)
        rows = s["pool"][0]["lanes"]
        self.res.count(f"prior {op['cls']}")
        mag = [1.0 + max(abs(float(v)) for v in r.values()) for r in rows]
        self.add(obj, None, mag)

    def update(self, fn, src, kw):
        """One real update."""
        obj = call(f"{fn}", getattr(M, fn), **kw, **self.supplied(fn), prior=src, res=self.res)
        if fn in RULES and self.layout.get("sys") is None and not self.o.get("purity"):
            self.parameter_rules(fn, src, kw, obj)
        return obj

    def keep_args(self, kw):
        """The arguments, should they be used again."""
        return kw

    def parameter_rules(self, fn, src, kw, obj):
        """Some rules are also offered as functions of the bare parameters."""
        for name, fields, order in RULES.get(fn, ()):
            rule = getattr(M, name, None)
            if rule is None:
                continue
            pos, named = [getattr(src, k) if k in fields else kw[k] for k in order], {}
            if not order:
                named = dict(alpha_prior=src.alpha, x=kw["x"]) if fields == ("alpha",) else {**{k: getattr(src, k) for k in fields}, **kw}
            try:
                inspect.signature(rule).bind(*pos, **named)
            except TypeError:  # (nothing says how they are called)
                continue
            got = call(name, rule, *pos, **named, res=self.res)
            got = got if len(fields) > 1 else (got,)
            for f, v in zip(fields, got):
                w = getattr(obj, f)
                if np.shape(v) != np.shape(w) or not np.allclose(np.asarray(v, float), np.asarray(w, float), rtol=1e-9, equal_nan=True):
                    raise Mismatch(f"{name} and {fn} differ", field=f, rule=repr(v)[:200], update=repr(w)[:200])

    def kwargs(self, op):
        kw = L.build_args(op["args"], self.layout)
        if self.o.get("purity"):
            self.freeze("an argument", kw)
        return kw

    def belief(self, s, op, obj, what, mag):
        rows = s["pool"][op["dst"]]["lanes"]
        if self.model == "hypergeometric_beta_binomial":
            obj = self.hypergeometric(s, op, obj, rows, what, mag)
        L.compare_params(obj, op["cls"], rows, self.layout, mag, what)
        return obj

    def hypergeometric(self, s, op, obj, rows, what, mag):
        """Known finding: the number of draws is ignored (N is used instead)."""
        try:
            L.compare_params(obj, op["cls"], rows, self.layout, mag, what)
            return obj
        except Mismatch:
            pass
        src = self.real[op["src"] if op["act"] != "joint" else 0]
        x = {a["name"]: a["vals"] for a in op["args"]}["x_total"]
        srow = s["pool"][op["src"] if op["act"] != "joint" else 0]["lanes"]
        wrong = [
            {"n": r["n"], "alpha": r["alpha"], "beta": b["beta"] + b["n"] - xv}
            for r, b, xv in zip(rows, srow, x)
        ]
        L.compare_params(obj, op["cls"], wrong, self.layout, mag, what)
        if self.o.get("hypergeometric"):
            self.res.known.append("hypergeometric-draws")
        if self.layout.get("sys") is not None:
            args = [{"name": f, "role": "full" if self.layout["arr"] else "const", "ints": False, "form": 1, "vals": [r[f] for r in rows]}
                    for f in ("n", "alpha", "beta")]
            return L.build_dist("BetaBinomial", args, self.layout)
        fixed = {
            f: np.array([float(r[f]) if f != "n" else int(r[f]) for r in rows]).reshape(L.shape_of(self.layout))
            for f in ("n", "alpha", "beta")
        }
        if self.layout["r"] * self.layout["c"] == 1 and not self.layout["arr"]:
            fixed = {f: v.item() for f, v in fixed.items()}
        return D.BetaBinomial(**fixed)

    def do_update(self, s, op):
        fn = op["fn"]
        kw = self.kwargs(op)
        src = self.real[op["src"]]
        if fn in DEPRECATED and self.o.get("deprecated"):
            obj = self.deprecated(fn, fn.replace("_normal_inverse_gamma", ""), dict(kw, prior=src))
        else:
            obj = self.update(fn, src, kw)
        self.res.count(f"update {fn} {op['cls']}")
        mag = self.mags(op, op["src"])
        if self.o.get("scalar_lanes"):
            self.scalar_lanes(s, op, fn, kw, obj, "prior", mag)
        kept = self.belief(s, op, obj, f"posterior of {fn}", mag)
        if self.o.get("empty_real") and fn != "hypergeometric_beta_binomial" and all(len(b) == 0 for b in s["pool"][op["dst"]]["batch"]):
            self.same_params(src, obj, op["cls"], mag, "an empty batch changed the belief")
        if self.o.get("repeat"):
            again = self.update(fn, src, kw)
            self.identical(obj, again, f"{fn} called twice with the same arguments")
        kw = self.keep_args(kw)
        self.made[op["dst"]] = (fn, src, kw, "prior")
        self.add(kept, kw, mag)

    def deprecated(self, old, new, kw):
        import warnings

        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                obj = getattr(M, old)(**kw)
            except Exception as e:
                raise Mismatch(f"{old} raised", exception=repr(e)) from e
        if not any(issubclass(x.category, (DeprecationWarning, PendingDeprecationWarning, FutureWarning, UserWarning)) for x in w):
            raise Mismatch(f"{old} does not warn that it is deprecated")
        ref = call(new, getattr(M, new), **kw, res=self.res)
        self.identical(obj, ref, f"{old} and {new} differ")
        return obj

    def params(self, obj):
        return real.params(obj)

    def identical(self, a, b, what):
        if type(a) is not type(b):
            raise Mismatch(what, first=type(a).__name__, second=type(b).__name__)
        pa, pb = self.params(a), self.params(b)
        for k in set(pa) | set(pb):
            x, y = pa.get(k), pb.get(k)
            if (x is None) != (y is None) or (x is not None and not np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)):
                raise Mismatch(what, field=k, first=repr(x)[:200], second=repr(y)[:200])

    def same_params(self, a, b, cls, mag, what):
        if type(a) is not type(b):
            raise Mismatch(what, first=type(a).__name__, second=type(b).__name__)
        if cls == "VonMisesKnownConcentration":
            return
        for k, x in self.params(a).items():
            y = self.params(b)[k]
            if x is None and y is None:
                continue
            tail = (4,) if cls == "Dirichlet" else ()
            gx = L.lanes_of(x, self.layout, tail)
            gy = L.lanes_of(y, self.layout, tail)
            for l in range(self.n):
                for u, v in zip(np.atleast_1d(gx[l]), np.atleast_1d(gy[l])):
                    if not L.close(float(v), float(u), mag[l]):
                        raise Mismatch(what, field=k, lane=l, before=float(u), after=float(v))

    def do_joint(self, s, op):
        kw = self.kwargs(op)
        obj = self.update(op["fn"], self.real[0], kw)
        self.res.count(f"joint {op['fn']}")
        mag = self.mags(op, op["src"])
        kept = self.belief(s, op, obj, f"joint posterior of {op['fn']}", mag)
        if self.model not in ("von_mises_known_concentration", "hypergeometric_beta_binomial"):
            self.same_params(self.real[op["src"]], obj, op["cls"], mag, "one joint update differs from batch updates")
        self.made[op["dst"]] = (op["fn"], self.real[0], self.keep_args(kw), "prior")
        self.add(kept, self.keep_args(kw), mag)

    def do_reorder(self, s, op):
        obj = self.real[0]
        for j in op["order"]:
            obj = self.update(op["fn"], obj, self.kw[j])
            if self.model == "hypergeometric_beta_binomial":
                raise Mismatch("the hypergeometric model is not explored here")
        mag = [2 * m for m in self.mag[op["src"]]]
        self.res.count(f"reorder {op['fn']}")
        rows = s["pool"][op["dst"]]["lanes"]
        L.compare_params(obj, op["cls"], rows, self.layout, mag, f"posterior of {op['fn']} in another order")
        self.add(obj, None, mag)

    # -------------------------------------------------------------- prediction
    def do_predict(self, s, op):
        fn = op["fn"]
        kw = self.kwargs(op)
        src = self.real[op["src"]]
        n = kw.get("n")
        if fn in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive") and self.layout.get("sys") is None:
            kw["n"] = n if np.ndim(n) else int(n)
            # counts are integers
            kw["n"] = np.asarray(n).astype(int) if np.ndim(n) else int(n)
            if fn == "categorical_dirichlet_predictive" and not np.ndim(n) and int(n) == 1:
                kw.pop("n")  # documented default
        if fn in ("multinomial_dirichlet_predictive", "poisson_gamma_predictive") and "n" in kw and not np.ndim(kw["n"]) \
                and self.layout.get("sys") is None and kw["n"] == 1:
            kw.pop("n")  # documented default
            self.res.count(f"predict {fn} by default")
        if fn in DEPRECATED and self.o.get("deprecated"):
            obj = self.deprecated(fn, fn.replace("_normal_inverse_gamma", ""), dict(kw, distribution=src))
        else:
            obj = call(fn, getattr(M, fn), **kw, distribution=src, res=self.res)
        self.res.count(f"predict {fn} {s['prior']}")
        cls = op["cls"]
        mag = [2 * m for m in self.mag[op["src"]]]
        if type(obj).__name__ != cls:
            raise Mismatch(f"{fn}: wrong class", expected=cls, got=type(obj).__name__)
        if self.o.get("scalar_lanes"):
            self.scalar_lanes(s, op, fn, kw, obj, "distribution", mag)
        if self.o.get("predict"):
            rows = s["pool"][op["dst"]]["lanes"]
            if rows[0]:
                amag = [m + sum(abs(float(v)) for v in r.values()) for m, r in zip(mag, rows)]
                L.compare_params(obj, cls, rows, self.layout, amag, f"{fn}")
            if self.o["predict"] != "params":
                self.evidence(s, op, obj, cls, fn)
        self.made[op["dst"]] = (fn, src, self.keep_args(kw), "distribution")
        self.add(obj, None, mag)

    def evidence(self, s, op, obj, cls, fn):
        """Mass or density of future outcomes against the marginal likelihood."""
        disc = cls in DISCRETE
        for pt in op["pts"]:
            x = outcome_args(cls, pt["at"], self.layout)
            if cls == "DirichletMultinomial":
                # the library delegates to scipy, which checks the number of trials
                nn = [int(p["x0"] + p["x1"] + p["x2"] + p["x3"]) for p in pt["at"]]
                if self.n > 1 and len(set(nn)) > 1 and not np.ndim(obj.n):
                    continue
            got = call(f"{cls}.dist of {fn}", log_density, obj, cls, x, disc, res=self.res)
            got = np.asarray(got, dtype=float).reshape(-1) if np.size(got) == self.n else None
            if got is None:
                raise Mismatch(f"{fn}: density has a wrong shape")
            for l in range(self.n):
                exp, size = logld(pt["ld"][l])
                check_log(got[l], exp, size, f"{fn}: probability of an outcome is not the marginal likelihood",
                          lane=l, at={k: str(v) for k, v in pt["at"][l].items()})

    # -------------------------------------------------------------- likelihood
    def do_recover(self, s, op):
        if self.o["recover"] == "supplied":
            return self.supplied_likelihood(s, op)
        prior, post = self.real[op["src"]], self.real[op["dst"]]
        b = s["pool"][op["dst"]]
        self.res.count(f"recover {op['fn']} {op['cls']}")
        for l in range(self.n):
            p0, p1 = lane_dist(prior, self.layout, l), lane_dist(post, self.layout, l)
            known = b["known"][l]
            ref = None
            for pt in op["pts"][:4]:
                t = pt["at"][l]
                info = dict(lane=l, at={k: str(v) for k, v in t.items()})
                exp, size = logld(pt["ld"][l])
                if self.o["recover"] == "class":
                    got, sz = class_loglik(op["fn"], op["cls"], known, t, b["batch"][l], self.res)
                    size += sz
                    check_log(got, exp, size, f"{op['fn']}: the library's likelihood class has another density", **info)
                    exp = got
                a0 = call("density of the prior", log_belief, p0, t, res=self.res)
                a1 = call("density of the posterior", log_belief, p1, t, res=self.res)
                if a0 is None or a1 is None:
                    continue
                size += abs(a0) + abs(a1) if a0 > NEG and a1 > NEG else 0
                if exp == NEG or a0 == NEG:
                    if a1 != NEG:
                        raise Mismatch(f"{op['fn']}: posterior gives mass to an impossible value", **info)
                    continue
                if self.o["recover"] == "class" and (a0 < -600 or exp < -1e5 or (a1 < -600 and exp < -600)):
                    continue
                if not math.isfinite(a1):
                    raise Mismatch(f"{op['fn']}: posterior excludes a possible value", got=a1, **info)
                c = exp + a0 - a1
                if ref is None:
                    ref = (c, size)
                elif abs(c - ref[0]) > 1e-7 + 1e-11 * (size + ref[1]):
                    raise Mismatch(f"{op['fn']}: posterior is not prior times likelihood", difference=c - ref[0], **info)

            self.own_likelihood(op, p1, l)

    def own_likelihood(self, op, post, l):
        """The log likelihood method against the documented kernel of the belief."""
        ref = None
        for pt in op["pts"][4:]:
            t = pt["at"][l]
            a1 = call("log likelihood of a belief", log_belief, post, t, res=self.res)
            exp, size = logld(pt["ld"][l])
            if a1 is None or not math.isfinite(a1) or exp == NEG:
                continue
            c = exp - a1
            if ref is None:
                ref = (c, size + abs(a1))
            elif abs(c - ref[0]) > 1e-7 + 1e-11 * (size + abs(a1) + ref[1]):
                raise Mismatch(f"{op['cls']}: the log likelihood is not the documented one", difference=c - ref[0], lane=l,
                               at={k: str(v) for k, v in t.items()})

    def supplied_likelihood(self, s, op):
        """Log likelihood methods with the caller's logarithm, gamma and Bessel functions."""
        d = self.tr[0]["numbers"]
        ln, g = d["lnw"], d["gw"]
        sys = self.layout["sys"]
        unit = L.ANGLES[d["angle"]]
        prior, post = self.real[op["src"]], self.real[op["dst"]]
        self.res.count(f"supplied likelihood {op['cls']}")
        own = {
            "ln": sys.lift(lambda a: ln * math.log(a)),
            "gammaln": sys.lift(lambda a: g * math.lgamma(a)),
            "i0": sys.lift(lambda a: float(i0(a)) ** g),
            "cos": sys.lift(lambda a: math.cos(a / unit)),
        }

        def value(dist, t):
            def box(v):
                return sys.encode(float(v), [v], "const", 1, ())

            if op["cls"] == "VonMisesKnownConcentration":
                if numbers.unwrap(dist.a) * g > 600:
                    return None
                mu = math.atan2(float(t["s"]), float(t["c"])) * unit
                v = dist.log_likelihood(mu=box(mu), **{k: own[k] for k in ("ln", "i0", "cos")})
                # only the normaliser, which does not depend on the direction, takes a logarithm
                a, b = numbers.unwrap(dist.a), numbers.unwrap(dist.b)
                plain = D.VonMisesKnownConcentration(a=a, b=b / unit).log_likelihood(mu=mu / unit)
                shift = float(plain) - numbers.unwrap(v) - (ln * g - 1) * math.log(float(i0(a)))
                if not abs(shift) <= 1e-8 * (1 + ln * g * a):
                    raise Mismatch("the log likelihood does not use the supplied operations", difference=shift, a=a, b=b, weights=[ln, g])
                return numbers.unwrap(v)
            if op["cls"] == "VonMisesKnownDirectionProportional":
                if t["k"] * g > 600:
                    return None
                return numbers.unwrap(dist.approx_log_likelihood(kappa=box(t["k"]), ln=own["ln"], i0=own["i0"]))
            return numbers.unwrap(dist.approx_log_likelihood(alpha=box(t["a"]), beta=box(t["b"]), ln=own["ln"], gammaln=own["gammaln"]))

        for l in range(self.n):
            p0, p1 = lane_dist(prior, self.layout, l), lane_dist(post, self.layout, l)
            ref = None
            for pt in op["pts"][:4]:
                t = pt["at"][l]
                exp, size = logld_weighted(pt["ld"][l], ln, g, ln * g)
                a0 = call("log likelihood with supplied operations", value, p0, t, res=self.res)
                a1 = call("log likelihood with supplied operations", value, p1, t, res=self.res)
                if a0 is None or a1 is None:
                    continue
                c = exp + a0 - a1
                size += abs(a0) + abs(a1)
                if ref is None:
                    ref = (c, size)
                elif not abs(c - ref[0]) <= 1e-7 + 1e-11 * (size + ref[1]):
                    raise Mismatch(f"{op['fn']}: the log likelihood does not use the supplied operations",
                                   difference=c - ref[0], lane=l, at={k: str(v) for k, v in t.items()}, weights=[ln, g])

    # -------------------------------------------------------------- selection
    def do_select(self, s, op):
        fn, src, kw, param = self.made[op["dst"]]
        order, n = op["order"], self.n
        key = {
            "int": lambda: order[0],
            "list": lambda: list(order),
            "array": lambda: np.array(order, dtype=int),
            "mask": lambda: np.array([j in order for j in range(n)]),
            "slice": lambda: slice(order[0], order[-1] + 1, order[1] - order[0] if len(order) > 1 else None),
        }[op["fn"]]()
        self.res.count(f"select {op['fn']} of {fn}")
        self.where["key"] = repr(key)

        def cut(v):
            return v[key] if np.ndim(v) else v

        # (objects all of whose parameters are scalars have no lanes to select)
        def lanes(obj):
            return any(np.ndim(v) for v in self.params(obj).values())

        # a scalar result of scalar arguments
        out = self.real[op["dst"]]
        if not lanes(out):
            return
        sel = call(f"{type(out).__name__}[{key!r}]", out.__getitem__, key, res=self.res)
        belief = call("selecting lanes", src.__getitem__, key, res=self.res) if lanes(src) else src
        again = call(fn, getattr(M, fn), **{k: cut(v) for k, v in kw.items()}, **{param: belief}, res=self.res)
        rows = [s["pool"][op["dst"]]["lanes"][j] for j in order]
        mag = [self.mag[op["dst"]][j] for j in order]
        lay = {"r": 1, "c": len(order), "arr": True, "dims": [] if op["fn"] == "int" else [len(order)]}
        if not rows:
            if type(sel) is not type(out):
                raise Mismatch("selecting nothing gives another class")
            return
        cls = op["cls"]
        if cls == "BetaBinomial" and fn == "hypergeometric_beta_binomial":
            return
        if rows[0]:
            L.compare_params(sel, cls, rows, lay, mag, f"lanes selected from the result of {fn}")
            L.compare_params(again, cls, rows, lay, mag, f"{fn} of selected lanes")

    # -------------------------------------------------------------- lanes
    def scalar_lanes(self, s, op, fn, kw, obj, param, mag):
        """The same call, one lane at a time."""
        src_rows = s["pool"][op["src"]]["lanes"]
        out_rows = s["pool"][op["dst"]]["lanes"]
        lay1 = {"r": 1, "c": 1, "arr": False}
        for l in range(self.n):
            prior = lane_dist(self.real[op["src"]], self.layout, l)
            k1 = {k: lane_value(v, self.layout, l, k, fn) for k, v in kw.items()}
            one = call(f"{fn} on lane {l}", getattr(M, fn), **k1, **{param: prior}, res=self.res)
            if type(one) is not type(obj):
                raise Mismatch(f"{fn}: vectorised call returns another class", lane=l)
            vec = lane_dist(obj, self.layout, l)
            p1, p2 = self.params(one), self.params(vec)
            for k in p1:
                a, b = p1[k], p2[k]
                if a is None and b is None:
                    continue
                a, b = np.atleast_1d(np.asarray(a, float)), np.atleast_1d(np.asarray(b, float))
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-9, atol=1e-12 * mag[l]):
                    raise Mismatch(f"{fn}: position of a vectorised call differs from the scalar call",
                                   lane=l, field=k, scalar=a, vectorised=b)
        del src_rows, out_rows, lay1


def log_belief(d, t):
    """Log density of a belief (one lane) at a value of the unknown."""
    n = type(d).__name__
    f = {k: float(v) for k, v in t.items()}
    if n == "Beta":
        return float(d.dist.logpdf(f["p"]))
    if n == "Gamma":
        return float(d.dist.logpdf(f["t"]))
    if n == "Pareto":
        got = float(d.dist.logpdf(f["t"]))
        # the logarithm of a density which underflowed says nothing
        return None if got == NEG and f["t"] >= d.x_m else got
    if n in ("InverseGamma", "ScaledInverseChiSquared"):
        return float(d.dist.logpdf(f["v"]))
    if n == "Normal":
        return float(d.dist.logpdf(f["m"]))
    if n == "NormalInverseGamma":
        return float(d.inverse_gamma.dist.logpdf(f["v"])) + norm_log(f["m"], d.mu, f["v"] / d.nu)
    if n == "NormalGamma":
        return float(d.gamma.dist.logpdf(f["t"])) + norm_log(f["m"], d.mu, 1 / (d.lam * f["t"]))
    if n == "Dirichlet":
        return float(d.dist.logpdf(np.array([f[f"p{i}"] for i in range(4)])))
    if n in ("GammaProportional", "BetaProportional", "GammaKnownRateProportional"):
        return float(d.approx_log_likelihood(alpha=f["a"], beta=f["b"]))
    if n == "VonMisesKnownConcentration":
        if d.a > 600:  # i0 overflows
            return None
        return float(d.log_likelihood(mu=math.atan2(f["s"], f["c"])))
    if n == "VonMisesKnownDirectionProportional":
        return float(d.approx_log_likelihood(kappa=f["k"]))
    raise KeyError(n)


def norm_log(x, mu, var):
    return -0.5 * ((x - mu) ** 2 / var + math.log(2 * math.pi * var))


def class_loglik(m, cls, k, t, batch, res):
    """Log likelihood of one lane's batch under the library's likelihood class."""
    total, size = 0.0, 0.0
    f = {a: float(v) for a, v in t.items()}
    kf = {a: float(v) for a, v in k.items()}
    for o in batch:
        x = float(o["x"]) if "x" in o else None
        if m == "binomial_beta":
            d, at = D.Binomial(n=int(o["n"]), p=f["p"]), int(x)
        elif m == "bernoulli_beta":
            d, at = D.Binomial(n=1, p=f["p"]), int(x)
        elif m == "negative_binomial_beta":
            d, at = D.NegativeBinomial(n=kf["r"], p=f["p"]), x
        elif m == "geometric_beta":
            d, at = D.Geometric(p=f["p"], one_start=bool(k["one_start"])), x
        elif m in ("categorical_dirichlet", "multinomial_dirichlet"):
            at = np.array([int(o[f"x{i}"]) if "x0" in o else int(o["cat"] == i) for i in range(4)])
            d = D.Multinomial(n=int(at.sum()), p=np.array([f[f"p{i}"] for i in range(4)]))
        elif m == "poisson_gamma":
            d, at = D.Poisson(lam=f["t"] * float(o["t"])), x
        elif m == "exponential_gamma":
            d, at = D.Exponential(lam=f["t"]), x
        elif m == "gamma_known_shape":
            d, at = D.Gamma(alpha=kf["alpha"], beta=f["t"]), x
        elif m == "inverse_gamma_known_rate":
            d, at = D.InverseGamma(alpha=kf["alpha"], beta=f["t"]), x
        elif m == "pareto_gamma":
            if float(o["lnx"]) > 300:  # the point itself overflows
                v = math.log(f["t"]) + f["t"] * kf["exp:x_m"] - (f["t"] + 1) * float(o["lnx"])
                total += float(o["m"]) * v
                size += float(o["m"]) * abs(v)
                continue
            xm = math.exp(kf["exp:x_m"])
            d, at = D.Pareto(x_m=xm, alpha=f["t"]), max(xm, math.exp(float(o["lnx"])))
        elif m == "normal_known_variance":
            d, at = D.Normal(mu=f["m"], sigma=kf["var"] ** 0.5), x
        elif m == "normal_known_precision":
            d, at = D.Normal(mu=f["m"], sigma=kf["precision"] ** -0.5), x
        elif m == "normal_known_mean":
            d, at = D.Normal(mu=kf["mu"], sigma=f["v"] ** 0.5), x
        elif m in ("normal", "normal_normal_inverse_gamma", "log_normal"):
            sg = f["t"] ** -0.5 if cls == "NormalGamma" else f["v"] ** 0.5
            if m == "log_normal":
                if abs(x) > 300:
                    # the point itself overflows
                    v = norm_log(x, f["m"], sg * sg) - x
                    total += float(o["m"]) * v
                    size += float(o["m"]) * abs(v)
                    continue
                d, at = D.LogNormal(mu=f["m"], sigma=sg), math.exp(x)
                size += float(o["m"]) * (abs(x - f["m"]) / sg**2) * abs(x)
            else:
                d, at = D.Normal(mu=f["m"], sigma=sg), x
        elif m == "uniform_pareto":
            d, at = D.Uniform(low=0.0, high=f["t"]), x
        elif m in ("gamma", "gamma_known_rate"):
            d, at = D.Gamma(alpha=f["a"], beta=f["b"]), x
        elif m == "beta":
            d, at = D.Beta(alpha=f["a"], beta=f["b"]), x
        elif m == "von_mises_known_concentration":
            d, at = D.VonMises(mu=math.atan2(f["s"], f["c"]), kappa=kf["kappa"]), math.atan2(float(o["s"]), float(o["c"]))
        elif m == "von_mises_known_direction":
            d, at = D.VonMises(mu=0.0, kappa=f["k"]), math.acos(x)
        elif m == "weibull_inverse_gamma_known_shape":
            d, at = D.Weibull(beta=f["shape"], theta=f["v"]), x ** (1 / f["shape"])
        else:
            raise KeyError(m)
        v = float(call(f"{type(d).__name__}.dist", log_density, d, type(d).__name__, at, type(d).__name__ in DISCRETE, res=res))
        total += float(o["m"]) * v
        size += float(o["m"]) * abs(v) if v > NEG else 0
    return total, size


def lane_value(v, layout, l, name="", fn=""):
    """The value an argument has in one lane."""
    if isinstance(v, (bool, int, float)) or v is None or not np.ndim(v):
        return v
    tail = np.shape(v)[-1:] if (name == "alpha" and "dirichlet" in fn) or (name == "x" and "dirichlet" in fn) else ()
    full = np.broadcast_to(v, L.shape_of(layout) + tail).reshape((-1,) + tail)
    w = full[l]
    return w if tail else w.item()


def lane_dist(obj, layout, l):
    """The distribution in one lane, built from scalar parameters."""
    kw = {}
    dirichlet = type(obj).__name__ in ("Dirichlet", "DirichletMultinomial")
    for k, v in real.params(obj).items():
        if v is None or isinstance(v, (bool, int, float)):
            kw[k] = v
            continue
        tail = np.shape(v)[-1:] if dirichlet and k == "alpha" else ()
        try:
            full = np.broadcast_to(v, L.shape_of(layout) + tail).reshape((-1,) + tail)
        except ValueError as e:
            raise Mismatch("a vectorised result has a wrong shape", field=k, shape=str(np.shape(v))) from e
        w = full[l]
        kw[k] = np.array(w) if tail else w.item() if isinstance(w, np.generic) else w
    return type(obj)(**kw)


def check_log(got, exp, size, clause, **info):
    if exp == NEG:
        if got == NEG:
            return
    elif exp < -690:  # underflow and subnormal numbers
        if got < -680:
            return
    elif abs(got - exp) <= 1e-8 + 1e-12 * size:
        return
    raise Mismatch(clause, got_log=float(got), expected_log=float(exp), **info)


def snapshot(obj):
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, np.ndarray):
        return ("array", obj.shape, str(obj.dtype), obj.tobytes())
    if is_dataclass(obj) and not isinstance(obj, type):
        return {f.name: snapshot(getattr(obj, f.name)) for f in fields(obj)}
    if hasattr(obj, "__dict__") and type(obj).__module__.startswith("conjugate"):
        return {k: snapshot(v) for k, v in vars(obj).items()}
    return (type(obj).__name__, repr(obj))


def same_snapshot(a, b):
    return a == b


def same_outcome(a, b):
    """Two results of the same call."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind in "fc":
            return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12 * (1 + np.max(np.abs(a[np.isfinite(a)]), initial=0)), equal_nan=True))
        return same_snapshot(snapshot(a), snapshot(b))
    if type(a) is not type(b):
        return False
    if isinstance(a, (float, np.floating)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same_outcome(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_outcome(x, y) for x, y in zip(a, b))
    if is_dataclass(a) and not isinstance(a, type):
        return all(same_outcome(getattr(a, f.name), getattr(b, f.name)) for f in fields(a))
    if type(a).__module__.split(".")[0] in ("scipy", "conjugate", "matplotlib"):
        return True  # only its type can be compared
    return repr(a) == repr(b)


def replayer(opts):
    def go(trace, res):
        Learn(trace, res, opts).run()

    return go
