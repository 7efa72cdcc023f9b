"""Replaying behaviours of spec/sampling.qnt on the implementation."""

import math
from fractions import Fraction

import numpy as np
from scipy import special, stats

from . import lanes as L
from .core import Mismatch
from .multi import fr, num
from .real import D, call

LIMIT = 6.5  # standard deviations
KS = 3.6  # Kolmogorov's statistic times sqrt(n)


def build(o):
    """The real object of an object of the specification."""
    if o["p"] == 0:
        lay = L.dims_layout(o["dims"])
        lay["plain"] = True
        return L.build_dist(o["cls"], o["args"], lay)
    form = o["args"][0]["form"]
    sc = {a["name"]: num(a["vals"][0], a["form"]) for a in o["args"]}
    mu = L.dress(np.array([float(r[0]) for r in fr(o["mu"])]), form)
    mat = L.dress(np.array([[float(v) for v in r] for r in fr(o["mat"])]), form)
    if o["cls"] == "Regression":
        return D.NormalInverseGamma(mu=mu, delta_inverse=mat, **sc)
    if o["cls"] == "NormalWishart":
        return D.NormalWishart(mu=mu, W=mat, **sc)
    return D.NormalInverseWishart(mu=mu, psi=mat, **sc)


def source(kind, seed):
    if kind == "int":
        return int(seed)
    if kind == "npint":
        return np.int64(seed)
    if kind == "Generator":
        return np.random.default_rng(seed)
    if kind == "RandomState":
        return np.random.RandomState(seed)
    return np.random.Generator(np.random.PCG64DXSM(seed))


def state_of(src):
    """A fingerprint of the state of a source (None: the global one)."""
    if src is None:
        return repr(np.random.get_state(legacy=False))
    if isinstance(src, np.random.Generator):
        return repr(src.bit_generator.state)
    if isinstance(src, np.random.RandomState):
        return repr(src.get_state(legacy=False))
    return ""


class Sampling:
    def __init__(self, trace, res, opts):
        self.tr, self.res = trace, res
        self.real, self.gens, self.outs = [], [], []

    def run(self):
        np.set_printoptions(threshold=10**6)
        for i, s in enumerate(self.tr):
            op = s["op"]
            self.s = s
            self.res.act(op["act"])
            try:
                getattr(self, "do_" + op["act"])(op)
            except Mismatch as e:
                e.info = {**e.info, "step": i, "act": op["act"], "kind": op["kind"], "seed": op["seed"]}
                raise

    def do_start(self, op):
        np.random.seed(op["seed"])
        self.gens.append(None)
        self.make(0)

    def make(self, i):
        o = self.s["pool"][i]
        self.real.append(call(f"{o['cls']}(...)", build, o, res=self.res))

    def do_create(self, op):
        self.make(op["obj"])

    def do_reassign(self, op):
        o = self.s["pool"][op["obj"]]
        new = build(o)
        obj = self.real[op["obj"]]
        setattr(obj, op["field"], getattr(new, op["field"]))
        self.res.count(f"reassign {o['cls']}.{op['field']}")

    def do_newGenerator(self, op):
        g = self.s["gens"][op["src"]]
        self.gens.append(source(g["kind"], g["seed"]))

    def do_seedGlobal(self, op):
        np.random.seed(op["seed"])

    # ------------------------------------------------------------ drawing
    def request(self, q, src, obj=None):
        o = q["obj"]
        if obj is None:
            obj = call(f"{o['cls']}(...)", build, o, res=self.res)
        kw = {"random_state": src} if src is not None or self.res.impl_calls % 4 == 0 else {}
        if q["sized"]:
            size = tuple(q["size"])
            kw["size"] = size[0] if len(size) == 1 else size
            if len(size) == 1 and self.res.impl_calls % 3 == 0:
                kw["size"] = np.int64(size[0])
        if q["both"]:
            kw["return_variance"] = (True, np.bool_(True), 1)[self.res.impl_calls % 3]
        elif q["fn"] in ("sample_mean", "sample_beta") and self.res.impl_calls % 2:
            kw["return_variance"] = (False, np.bool_(False), 0)[self.res.impl_calls % 3]
        what = f"{o['cls']}.{q['fn']}(size={kw.get('size')})"
        fn = obj.dist.rvs if q["fn"] == "rvs" else getattr(obj, q["fn"])
        args = (kw.pop("size"),) if "size" in kw and self.res.impl_calls % 5 == 0 else ()
        out = call(what, fn, *args, res=self.res, **kw)
        self.res.count(f"{o['cls']}.{q['fn']}{' with variance' if q['both'] else ''}")
        return out

    def inspect(self, q, look, out):
        """Shapes and ranges; returns the arrays."""
        o = q["obj"]
        what = f"{o['cls']}.{q['fn']}(size={q['size']})"
        if q["both"]:
            if not isinstance(out, tuple) or len(out) != 2:
                raise Mismatch(f"{what}: the variance is not returned with the sample", got=type(out).__name__)
            parts = [(out[0], tuple(look["sample"]), "sample"), (out[1], tuple(look["variance"]), "variance")]
        else:
            if isinstance(out, (tuple, list)):
                raise Mismatch(f"{what}: returned more than the sample", got=type(out).__name__)
            parts = [(out, tuple(look["sample"]), "sample")]
        arrays = []
        for a, shape, name in parts:
            a = np.asarray(a)
            if a.dtype.kind not in "if":
                raise Mismatch(f"{what}: {name} is not numeric", dtype=str(a.dtype))
            if a.shape != shape:
                raise Mismatch(f"{what}: {name} has another shape", got=a.shape, expected=shape)
            if not np.all(np.isfinite(a)):
                raise Mismatch(f"{what}: {name} is not finite", got=a.tolist())
            arrays.append(a)
        self.ranges(q, arrays, what)
        if look["separate"]:
            for a, k, (_, _, name) in zip(arrays, look["axes"], parts):
                items = a.reshape(-1, math.prod(a.shape[a.ndim - k:])) if a.size else a.reshape(0, 1)
                if len(np.unique(items, axis=0)) != len(items):
                    raise Mismatch(f"{what}: two samples are the same draw ({name})", got=a.tolist())
        return arrays

    def ranges(self, q, arrays, what):
        o = q["obj"]
        a = arrays[-1]
        if q["fn"] == "sample_variance" or q["both"]:
            if o["cls"] in ("NormalWishart", "NormalInverseWishart"):
                if not np.allclose(a, np.swapaxes(a, -1, -2)) or np.any(np.linalg.eigvalsh((a + np.swapaxes(a, -1, -2)) / 2) < -1e-9 * np.abs(a).max((-2, -1))[..., None]):
                    raise Mismatch(f"{what}: a sampled covariance is not symmetric and positive definite", got=a.tolist())
            elif np.any(a <= 0):
                raise Mismatch(f"{what}: a sampled variance is not positive", got=a.tolist())
        if o["cls"] == "Dirichlet" and (np.any(a < 0) or not np.allclose(a.sum(-1), 1)):
            raise Mismatch(f"{what}: not on the simplex", got=a.tolist())
        if o["cls"] == "CompoundGamma" and np.any(a < 0):
            raise Mismatch(f"{what}: negative", got=a.tolist())
        if o["cls"] == "BetaGeometric":
            start = [x for x in o["args"] if x["name"] == "one_start"][0]["vals"][0]
            if np.any(a < start) or np.any(a != np.floor(a)):
                raise Mismatch(f"{what}: outside the support", got=a.tolist(), start=int(start))

    def drawn(self, i, q, look, out, same):
        arrays = self.inspect(q, look, out)
        for j in same:
            if any(not np.array_equal(a, b) for a, b in zip(arrays, self.outs[j])):
                raise Mismatch("identical random state, different output", fn=q["fn"], cls=q["obj"]["cls"],
                               got=[a.tolist() for a in arrays], earlier=[a.tolist() for a in self.outs[j]])
        self.outs.append(arrays)
        if same:
            self.res.count("repeated draws")

    def bystanders(self, moving):
        return [(k, g, state_of(g)) for k, g in enumerate(self.gens) if k != moving]

    def draw_one(self, op, i, src, index, obj=None):
        q = op["reqs"][i]
        watch = self.bystanders(index)
        before = state_of(src) if not isinstance(src, (int, np.integer)) else None
        out = self.request(q, src, obj)
        for k, g, st in watch:
            if state_of(g) != st:
                raise Mismatch("another source of randomness was used or changed" if k else "the global source of randomness was used or changed",
                               fn=q["fn"], cls=q["obj"]["cls"], source=type(src).__name__)
        empty = 0 in q["size"]
        if before is not None and not empty and state_of(src) == before:
            raise Mismatch("the source of randomness was not advanced", fn=q["fn"], cls=q["obj"]["cls"], source=op["kind"])
        self.drawn(op["ids"][i], q, op["looks"][i], out, op["same"][i])

    def do_draw(self, op):
        byint = op["src"] < 0
        src = source(op["kind"], op["seed"]) if byint else self.gens[op["src"]]
        # the object of the pool where it still is the one asked for
        q = op["reqs"][0]
        obj = next((self.real[i] for i, o in enumerate(self.s["pool"]) if o == q["obj"]), None)
        self.draw_one(op, 0, src, None if byint else op["src"], obj)
        for j in op["differ"]:
            if all(np.array_equal(a, b) for a, b in zip(self.outs[-1], self.outs[j])):
                raise Mismatch("different random states, identical output", fn=q["fn"], cls=q["obj"]["cls"])

    def do_rerun(self, op):
        g = source(op["kind"], op["seed"])
        self.gens.append(g)
        for i in range(len(op["reqs"])):
            self.draw_one(op, i, g, op["src"])

    # ------------------------------------------------------------ laws
    def do_law(self, op):
        i = op["obj"]
        o, obj, law = self.s["pool"][i], self.real[i], op["law"]
        cls, way = o["cls"], op["way"]
        self.res.count(f"law {cls} {way} {op['kind']}")
        fn = op["field"]
        both = fn in ("sample_mean", "sample_beta")
        matrix = o["p"] > 0
        n = {"once": 2000 if matrix else 12000, "chunks": 2100 if matrix else 9000, "single": 1000}[way]
        k = {"once": 1, "chunks": 3, "single": n}[way]
        src = source(op["kind"], op["seed"])
        parts = []
        self.chunk = n // k
        for j in range(k):
            # an integer always gives the same draws: several requests need several integers
            s = type(src)(op["seed"] + j) if op["kind"] in ("int", "npint") else src
            size = [n // k] if cls == "Dirichlet" else [n // k] + o["dims"]
            q = {"obj": o, "fn": fn, "sized": True, "size": size, "both": both}
            out = self.request(q, s, obj)
            parts.append(out if both else (out,))
        axis = 1 if cls == "Dirichlet" else 0
        arrays = [np.concatenate([np.asarray(p[t]) for p in parts], axis=axis).astype(float) for t in range(len(parts[0]))]
        if not all(np.all(np.isfinite(a)) for a in arrays):
            raise Mismatch(f"{cls}.{fn}: samples are not finite")
        if cls != "BetaGeometric":
            # samples of a continuous law differ from each other
            for a in arrays:
                a = np.moveaxis(a, axis, 0).reshape(n, -1)
                if len(np.unique(a, axis=0)) < 0.99 * n:
                    raise Mismatch(f"{cls}.{fn}: samples repeat", distinct=len(np.unique(a, axis=0)), of=n)
        getattr(self, "law_" + ("joint" if both or fn == "sample_variance" else cls))(o, law, arrays, fn, n)

    def law_joint(self, o, law, arrays, fn, n):
        var = arrays[-1]
        cls = o["cls"]
        lanes = len(law["marginal"])
        cols, names = [], []
        if cls in ("NormalInverseGamma", "NormalGamma", "Regression"):
            v = var.reshape(n, lanes)
            for l, r in enumerate(law["marginal"]):
                cols.append(special.gammaincc(float(r["alpha"]), float(r["beta"]) / v[:, l]))
                names.append(f"variance of lane {l}")
        else:
            r = law["marginal"][0]
            m = np.array([[float(x) for x in row] for row in fr(law["matrix"])])
            nu, p = float(r["nu"]), o["p"]
            # Bartlett: with W = L L' and precision = L A A' L', A is triangular with
            # independent chi and normal entries
            low = np.linalg.cholesky(m if cls == "NormalWishart" else np.linalg.inv(m))
            prec = np.linalg.inv(var.reshape(n, p, p))
            il = np.linalg.inv(low)
            a = np.linalg.cholesky(il @ ((prec + np.swapaxes(prec, 1, 2)) / 2) @ il.T)
            for i in range(p):
                for j in range(i + 1):
                    x = a[:, i, j]
                    cols.append(special.gammainc((nu - i) / 2, x**2 / 2) if i == j else special.ndtr(x))
                    names.append(f"Bartlett factor {i},{j} of the variance")
        if len(arrays) == 2:
            mean = arrays[0]
            if o["p"] == 0:
                me, v = mean.reshape(n, lanes), var.reshape(n, lanes)
                for l, r in enumerate(law["marginal"]):
                    z = (me[:, l] - float(r["mu"])) / np.sqrt(v[:, l] * float(law["factor"][l]))
                    cols.append(special.ndtr(z))
                    names.append(f"mean of lane {l} given its variance")
            else:
                p = o["p"]
                mu = np.array([float(r[0]) for r in fr(o["mu"])])
                m = np.array([[float(x) for x in row] for row in fr(law["matrix"])])
                if cls == "Regression":
                    cov = var.reshape(n, 1, 1) * m
                else:
                    cov = var.reshape(n, p, p) * float(law["factor"][0])
                cov = (cov + np.swapaxes(cov, 1, 2)) / 2
                z = np.linalg.solve(np.linalg.cholesky(cov), (mean.reshape(n, p) - mu)[..., None])[..., 0]
                for i in range(p):
                    cols.append(special.ndtr(z[:, i]))
                    names.append(f"whitened mean {i} given the variance")
        self.uniform(np.stack(cols, axis=1), names, f"{cls}.{fn}")

    def uniform(self, u, names, what):
        """The columns of u are independent and uniform; so are the rows."""
        n = len(u)
        grid = np.arange(1, n + 1) / n
        for j, name in enumerate(names):
            s = np.sort(u[:, j])
            d = max(np.max(grid - s), np.max(s - grid + 1 / n)) * math.sqrt(n)
            self.res.count("law statistics")
            if d > KS:
                raise Mismatch(f"{what}: {name} does not follow its law", statistic=d, n=n)
        # as normal scores: products and squares
        z = special.ndtri(np.clip(u, 1e-12, 1 - 1e-12))
        for power in (1, 2):
            y = z if power == 1 else (z**2 - 1) / math.sqrt(2)
            tot = y.sum(0) / math.sqrt(n)
            # sums of squares have heavier tails than normal at small n
            lim = LIMIT if power == 1 else LIMIT + 2
            for j, name in enumerate(names):
                if abs(tot[j]) > lim:
                    raise Mismatch(f"{what}: {name} has a wrong {'location' if power == 1 else 'spread'}", statistic=tot[j], n=n)
            c = y.T @ y / math.sqrt(n)
            for a in range(len(names)):
                for b in range(a):
                    self.res.count("law statistics")
                    if abs(c[a, b]) > lim:
                        raise Mismatch(f"{what}: {names[a]} depends on {names[b]}", statistic=c[a, b], n=n)
            for lag in sorted({1, 2, self.chunk // 2, self.chunk, n // 2}):
                if not 0 < lag < n:
                    continue
                c = y[lag:].T @ y[:-lag] / math.sqrt(n)
                if np.max(np.abs(c)) > lim:
                    a, b = np.unravel_index(np.argmax(np.abs(c)), c.shape)
                    raise Mismatch(f"{what}: samples depend on earlier samples", later=names[a], earlier=names[b], lag=lag, statistic=c[a, b])
            c = y[: n // 2].T @ y[::-1][: n // 2] / math.sqrt(n // 2)
            if np.max(np.abs(c)) > lim:
                raise Mismatch(f"{what}: samples depend on the samples at the other end", statistic=np.max(np.abs(c)))
        # values occur once, and are not mirrored
        for j, name in enumerate(names):
            if len(np.unique(u[:, j])) < 0.98 * n or len(np.unique(np.round(np.abs(u[:, j] - 0.5), 11))) < 0.98 * n:
                raise Mismatch(f"{what}: values of {name} are repeated")

    def law_BetaGeometric(self, o, law, arrays, fn, n):
        x = arrays[0].reshape(n, -1)
        self.tails(x, law, law["at"], "BetaGeometric.rvs", n)
        self.mixing(x > np.median(x, axis=0), "BetaGeometric.rvs", n)

    def law_CompoundGamma(self, o, law, arrays, fn, n):
        x = arrays[0].reshape(n, -1)
        lam = np.array([float(r["lam"]) for r in law["marginal"]])
        u = x / (x + lam)
        self.tails(u, law, law["at"], "CompoundGamma.rvs", n)
        cols = [special.betainc(float(r["alpha"]), float(r["beta"]), u[:, l]) for l, r in enumerate(law["marginal"])]
        self.uniform(np.stack(cols, axis=1), [f"lane {l}" for l in range(len(cols))], "CompoundGamma.rvs")

    def law_Dirichlet(self, o, law, arrays, fn, n):
        x = arrays[0]
        cols, names = [], []
        for l, r in enumerate(law["marginal"]):
            a = [float(r[f"a{i}"]) for i in range(4)]
            rest = np.ones(n)
            for i in range(3):
                cols.append(special.betainc(a[i], sum(a[i + 1:]), np.clip(x[l, :, i] / rest, 0, 1)))
                names.append(f"part {i} of lane {l}")
                rest = rest - x[l, :, i]
        self.uniform(np.stack(cols, axis=1), names, "Dirichlet.rvs")

    def tails(self, x, law, at, what, n):
        for l, probs in enumerate(law["tail"]):
            for t, p in zip(at, probs):
                p = float(p)
                got = np.mean(x[:, l] > float(t))
                self.res.count("law statistics")
                sd = math.sqrt(max(p * (1 - p), 1.0 / n) / n)
                if abs(got - p) > (LIMIT + 1) * sd:
                    raise Mismatch(f"{what}: wrong frequency above {t}", lane=l, got=got, expected=p, n=n)

    def mixing(self, b, what, n):
        y = b - b.mean(0)
        sd = np.maximum(y.std(0), 0.05)
        y = y / sd
        for lag in (0, 1, 2):
            c = (y[lag:].T @ y[: n - lag]) / math.sqrt(n)
            for i in range(c.shape[0]):
                for j in range(c.shape[1]):
                    if (lag or i != j) and abs(c[i, j]) > LIMIT + 2:
                        raise Mismatch(f"{what}: samples are not independent", lanes=(i, j), lag=lag, statistic=c[i, j])


def replayer(opts):
    return lambda trace, res: Sampling(trace, res, opts).run()
