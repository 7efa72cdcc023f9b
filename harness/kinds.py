"""Replaying behaviours of spec/kinds.qnt: what is accepted, what is refused."""

import dataclasses
import re
import types

import numpy as np
from scipy import stats

from .core import Mismatch
from .learn import same_snapshot, snapshot
from .real import D, M, call

EYE = np.eye(2)

# admissible constructor arguments of every class
MAKE = {
    "Beta": dict(alpha=2, beta=3), "BetaBinomial": dict(n=20, alpha=2, beta=3), "BetaGeometric": dict(alpha=2, beta=3),
    "BetaNegativeBinomial": dict(n=4, alpha=2, beta=3), "BetaProportional": dict(p=0.5, q=0.5, k=2),
    "Binomial": dict(n=10, p=0.5), "CompoundGamma": dict(alpha=2, beta=3, lam=4), "Dirichlet": dict(alpha=np.array([1.0, 2.0, 3.0])),
    "DirichletMultinomial": dict(alpha=np.array([1.0, 2.0, 3.0]), n=4), "Exponential": dict(lam=2), "Gamma": dict(alpha=2, beta=3),
    "GammaKnownRateProportional": dict(a=0.5, b=1, c=2), "GammaProportional": dict(p=0.5, q=2, r=1, s=2),
    "Geometric": dict(p=0.5), "Hypergeometric": dict(N=20, k=10, n=5), "InverseGamma": dict(alpha=2, beta=3),
    "InverseWishart": dict(nu=4, psi=EYE), "LogNormal": dict(mu=1, sigma=2), "Lomax": dict(alpha=2, lam=3),
    "Multinomial": dict(n=4, p=np.array([0.2, 0.3, 0.5])), "MultivariateNormal": dict(mu=np.array([1.0, 2.0]), cov=EYE),
    "MultivariateStudentT": dict(mu=np.array([1.0, 2.0]), sigma=EYE, nu=4), "NegativeBinomial": dict(n=4, p=0.5),
    "Normal": dict(mu=1, sigma=2), "NormalGamma": dict(mu=1, lam=2, alpha=3, beta=4),
    "NormalInverseGamma": dict(mu=1, alpha=3, beta=4, nu=2),
    "NormalInverseWishart": dict(mu=np.array([1.0, 2.0]), kappa=2, nu=4, psi=EYE),
    "NormalWishart": dict(mu=np.array([1.0, 2.0]), lam=2, W=EYE, nu=4), "Pareto": dict(x_m=2, alpha=3), "Poisson": dict(lam=2),
    "ScaledInverseChiSquared": dict(nu=3, sigma2=2), "StudentT": dict(mu=1, sigma=2, nu=4), "Uniform": dict(low=1, high=3),
    "VonMises": dict(mu=1, kappa=2), "VonMisesKnownConcentration": dict(a=1, b=0.5),
    "VonMisesKnownDirectionProportional": dict(c=0.5, r=1), "Weibull": dict(beta=2, theta=3), "Wishart": dict(nu=4, V=EYE),
}
MULTI_NIG = dict(mu=np.array([1.0, 2.0]), alpha=3, beta=4, delta_inverse=EYE)

ROWS = np.array([[1.0, 2.0], [2.0, 0.5], [0.0, 1.0]])
S = dict(x_total=5, n=3)
# admissible data for every function
DATA = {
    "binomial_beta": dict(n=10, x=4), "bernoulli_beta": dict(x=1), "negative_binomial_beta": dict(r=3, n=2, x=4),
    "geometric_beta": dict(x_total=5, n=3), "hypergeometric_beta_binomial": dict(x_total=4, n=10),
    "categorical_dirichlet": dict(x=np.array([1, 2, 3])), "multinomial_dirichlet": dict(x=np.array([[1, 2, 3], [0, 1, 2]])),
    "poisson_gamma": S, "exponential_gamma": S, "gamma_known_shape": dict(S, alpha=2),
    "inverse_gamma_known_rate": dict(reciprocal_x_total=4, n=3, alpha=2), "pareto_gamma": dict(n=3, ln_x_total=5, x_m=2),
    "normal_known_variance": dict(S, var=2), "normal_known_precision": dict(S, precision=2),
    "normal_known_mean": dict(S, x2_total=12, mu=1), "normal": dict(S, x2_total=12), "log_normal": dict(ln_x_total=5, ln_x2_total=12, n=3),
    "normal_normal_inverse_gamma": dict(S, x2_total=12), "linear_regression": dict(X=ROWS, y=np.array([1.0, 2.0, 3.0])),
    "uniform_pareto": dict(x_max=4, n=3), "gamma": dict(x_total=5, x_prod=3, n=3), "gamma_known_rate": dict(x_prod=3, n=3, beta=2),
    "beta": dict(x_prod=0.2, one_minus_x_prod=0.1, n=3),
    "von_mises_known_concentration": dict(cos_total=1.5, sin_total=0.5, n=3, kappa=2),
    "von_mises_known_direction": dict(centered_cos_total=1.5, n=3),
    "multivariate_normal_known_covariance": dict(n=3, x_bar=np.array([1.0, 0.5]), cov=2 * EYE),
    "multivariate_normal_known_precision": dict(n=3, x_bar=np.array([1.0, 0.5]), precision=2 * EYE),
    "multivariate_normal_known_mean": dict(X=ROWS, mu=np.array([1.0, 1.0])), "multivariate_normal": dict(X=ROWS),
    "weibull_inverse_gamma_known_shape": dict(n=3, x_beta_total=5),
    "binomial_beta_predictive": dict(n=10), "negative_binomial_beta_predictive": dict(r=3), "gamma_known_shape_predictive": dict(alpha=2),
    "normal_known_variance_predictive": dict(var=2), "normal_known_precision_predictive": dict(precision=2),
    "normal_known_mean_predictive": dict(mu=1), "linear_regression_predictive": dict(X=ROWS),
    "multivariate_normal_known_covariance_predictive": dict(cov=2 * EYE),
    "multivariate_normal_known_precision_predictive": dict(precision=2 * EYE),
}

CHILD = {c: type("Child" + c, (getattr(D, c),), {}) for c in MAKE}
GRANDCHILD = {c: type("Grandchild" + c, (CHILD[c],), {"extra": 1}) for c in MAKE}
NAMESAKE = {c: type(c, (types.SimpleNamespace,), {}) for c in MAKE}

JUNK = {
    "none": None, "int": 3, "float": 0.5, "str": "Beta", "dict": {"alpha": 1, "beta": 1}, "tuple": (1, 1),
    "array": np.array([1.0, 2.0]), "scipy": stats.beta(1, 2), "lambda": lambda: None, "zero": 0, "empty": [],
}


def admissible(cls, fn):
    if fn.startswith("linear_regression") and cls == "NormalInverseGamma":
        return MULTI_NIG
    return MAKE[cls]


def thing(kind, base, fn):
    if kind == "class itself":
        return getattr(D, base)
    if base:
        c = {"instance": lambda b: getattr(D, b), "child": CHILD.get, "grandchild": GRANDCHILD.get, "namesake": NAMESAKE.get}[kind](base)
        return c(**admissible(base, fn))
    if kind == "stacked":
        return D.VectorizedDist(np.array([[1.0, 2.0], [2.0, 3.0]]), stats.dirichlet)
    return JUNK[kind]


def refused(what, fn, expected, received, **kw):
    """fn(**kw) has to raise a ValueError naming every one of `expected`, and `received`."""
    import warnings

    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            out = fn(**kw)
    except ValueError as e:
        msg = str(e)
        for name in list(expected) + ([received] if received else []):
            if not re.search(rf"(?<![A-Za-z0-9_]){re.escape(name)}(?![A-Za-z0-9_])", msg):
                raise Mismatch(f"{what}: the refusal does not name {name}", message=msg) from e
        return
    except Exception as e:
        raise Mismatch(f"{what}: refused with {type(e).__name__} instead of ValueError", message=str(e)[:300]) from e
    raise Mismatch(f"{what}: accepted", got=repr(out)[:300])


PRECISION = {
    "zero": 0, "number": 2.0, "array": np.array([1.0, 2.0]), "zeros": np.zeros((2, 2)), "none": None,
}


def precision(name, kind):
    if name == "delta_inverse" and kind in ("number", "array"):
        return EYE if kind == "array" else np.array([[2.0]])
    return PRECISION[kind]


class Kinds:
    def __init__(self, trace, res, opts):
        self.tr, self.res = trace, res
        self.objs = []

    def run(self):
        for i, s in enumerate(self.tr):
            op = s["op"]
            self.res.act(op["act"])
            try:
                getattr(self, "do_" + op["act"])(op)
            except Mismatch as e:
                e.info = {**e.info, "step": i, "op": {k: v for k, v in op.items() if v not in ("", [])}}
                raise

    def do_start(self, op):
        pass

    def do_offer(self, op):
        fn = getattr(M, op["fn"])
        kw = dict(DATA.get(op["fn"], {}))
        what = f"{op['fn']} given {op['kind']} {op['base']}"
        if op["kind"] != "missing":
            obj = thing(op["kind"], op["base"], op["fn"])
            kw[op["par"]] = obj
        self.res.count(f"offer {op['kind']} {'accepted' if op['ok'] else 'refused'}")
        if not op["ok"]:
            self.res.impl_calls += 1
            received = None if op["kind"] == "missing" else type(obj).__name__
            refused(what, fn, op["expected"], received, **kw)
            return
        out = call(what, fn, **kw, res=self.res)
        if not isinstance(out, getattr(D, op["out"])):
            raise Mismatch(f"{what}: wrong class of result", got=type(out).__name__, expected=op["out"])
        if op["kind"] != "instance":
            # the result is that of the plain instance
            kw[op["par"]] = thing("instance", op["base"], op["fn"])
            ref = call(what, fn, **kw, res=self.res)
            if not same_snapshot(contents(ref), contents(out)):
                raise Mismatch(f"{what}: differs from the plain instance", got=repr(out)[:300], expected=repr(ref)[:300])

    def do_construct(self, op):
        kw = {}
        if op["delta"]:
            kw["delta_inverse"] = precision("delta_inverse", op["delta"])
        if op["nu"]:
            kw["nu"] = precision("nu", op["nu"])
        way = op["way"]
        if way == "from_inverse_gamma":
            fn = lambda **k: D.NormalInverseGamma.from_inverse_gamma(mu=1.0, inverse_gamma=D.InverseGamma(3, 4), **k)  # noqa: E731
        elif way == "positional":
            def fn(**k):
                a = [k.pop("delta_inverse")] if "delta_inverse" in k else []
                return D.NormalInverseGamma(1.0, 3.0, 4.0, *a, **k)
        else:
            cls = CHILD["NormalInverseGamma"] if way == "child" else D.NormalInverseGamma
            fn = lambda **k: cls(mu=1.0, alpha=3.0, beta=4.0, **k)  # noqa: E731
        what = f"NormalInverseGamma by {way} with delta_inverse={op['delta'] or 'absent'}, nu={op['nu'] or 'absent'}"
        self.res.count(f"construct {way} {'accepted' if op['ok'] else 'refused'}")
        if not op["ok"]:
            self.res.impl_calls += 1
            refused(what, fn, [], None, **kw)
            return
        obj = call(what, fn, **kw, res=self.res)
        for f, k in (("delta_inverse", op["delta"]), ("nu", op["nu"])):
            if not same_snapshot(snapshot(getattr(obj, f)), snapshot(kw.get(f))):
                raise Mismatch(f"{what}: holds another {f}", got=repr(getattr(obj, f)))
        self.objs.append(obj)

    def do_reassign(self, op):
        o = self.objs[op["obj"]]
        o.delta_inverse = precision("delta_inverse", op["delta"])
        o.nu = precision("nu", op["nu"])

    def do_univariate(self, op):
        o = self.objs[op["obj"]]
        fn = getattr(M, op["fn"])
        self.res.count(f"univariate {op['fn']} {'accepted' if op['ok'] else 'refused'}")
        what = f"{op['fn']} with nu={op['nu'] or 'absent'}"
        if not op["ok"]:
            self.res.impl_calls += 1
            refused(what, fn, [], None, prior=o, **DATA[op["fn"]])
            return
        out = call(what, fn, prior=o, **DATA[op["fn"]], res=self.res)
        exp = np.asarray(precision("nu", op["nu"])) + 3
        if not np.allclose(np.broadcast_to(out.nu, exp.shape), exp):
            raise Mismatch(f"{what}: wrong nu", got=repr(out.nu))


def contents(obj):
    return {f.name: snapshot(getattr(obj, f.name)) for f in dataclasses.fields(obj)}


def replayer(opts):
    return lambda trace, res: Kinds(trace, res, opts).run()
