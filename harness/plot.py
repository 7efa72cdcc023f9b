"""Replaying behaviours of spec/plot.qnt on the implementation.

The pool is mirrored by real objects and the axes by real matplotlib axes;
after every operation all lines of all axes and all bounds are compared.
"""

import math
from fractions import Fraction

import numpy as np
from scipy import stats

from . import lanes as L
from .algebra import attr_of, real_key
from .core import Mismatch
from .ld import logld
from .learn import DISCRETE, same_snapshot, snapshot
from .real import D, call

TEXTS = ["a", "prior", "x_1", "Beta(1, 2)", "50%", "b 1", "$\\mu$", "10", ""]
COLORS = {
    "name": ["red", "blue", "tab:green", "k", "xkcd:orange", "C3"],
    "hex": ["#ff0000", "#0000ff", "#008000", "#102030", "#fa0", "#0af5"],
    "rgb": [(1, 0, 0), (0, 0, 1.0), (0.1, 0.5, 0.25), (0, 0, 0), (0.9, 0.8, 0.7), (0.3, 0.3, 0.3)],
    "rgba": [(1, 0, 0, 1), (0, 0, 1.0, 0.5), (0.1, 0.5, 0.25, 1.0), (0, 0, 0, 0.75), (0.9, 0.8, 0.7, 1), (0.3, 0.3, 0.3, 0.9)],
    "grey": ["0.1", "0.25", "0.5", "0.6", "0.75", "0.9"],
    "mixed": ["red", "#0000ff", (0.1, 0.5, 0.25), "0.6", "tab:blue", "#fa0"],
}
OPTS = {
    "linewidth": [0.5, 1.0, 2.5, 4],
    "alpha": [0.25, 0.5, 0.9, 1.0],
    "zorder": [1, 3, 5.5, 10],
    "linestyle": ["-", "--", ":", "-."],
    "marker": ["o", "s", "^", "x"],
    "markersize": [2.0, 5, 8.0, 3],
    "mark": [("--", "None", "--"), ("s:", "s", ":"), ("^", "^", "None"), ("x-", "x", "-")],
}


class Labels:
    """A sequence that is neither a list nor an array."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)


def end(e):
    return float(e["v"]) if not e["pi"] else float(e["v"]) + e["pi"] * math.pi


def bound(e, form):
    v = e["v"]
    if form == 1 and v.denominator == 1:
        return int(v)
    if form == 2:
        return np.float64(float(v))
    if form == 3 and v.denominator == 1:
        return np.int64(int(v))
    return float(v)


def label_text(lab):
    if lab["kind"] == "text":
        return TEXTS[lab["t"]]
    if lab["kind"] == "number":
        return f"{TEXTS[lab['t']]} {lab['i']}"
    if lab["kind"] == "fun":
        return f"{TEXTS[lab['t']]} number {lab['i'] * 7 + 3}"
    return None


def label_value(a):
    vals = [None if v < 0 else TEXTS[v] for v in a["vals"]]
    if a["mode"] == "none":
        return None
    if a["mode"] == "str":
        return vals[0]
    if a["mode"] == "fun":
        t = vals[0]
        return lambda i: f"{t} number {i * 7 + 3}"
    if a["cont"] == "tuple":
        return tuple(vals)
    if a["cont"] == "array" and None not in vals:
        return np.array(vals)
    if a["cont"] == "range" and len(vals) > 1:
        return Labels(vals)
    if a["cont"] == "dict" and None not in vals and len(set(vals)) == len(vals):
        return dict.fromkeys(vals).keys() if len(vals) > 1 else vals
    return list(vals)


def color_value(a):
    table = COLORS[a["form"]]
    # (references into the colour cycle only make sense for a single colour)
    ban = "C3" if a["mode"] == "seq" else None
    cs = [("m" if table[v] == ban else table[v]) for v in a["vals"]]
    if a["mode"] == "one":
        return cs[0], cs
    if a["cont"] == "tuple":
        if len(cs) in (2, 3, 4) and a["form"] in ("grey", "mixed", "name", "hex", "rgb", "rgba"):
            return tuple(cs), cs
        return tuple(cs), cs
    if a["cont"] == "array" and a["form"] in ("rgb", "rgba") and len(cs) > 1:
        return np.array(cs, dtype=float), cs
    return list(cs), cs


def line_state(ln):
    x, y = ln.get_data()
    return (
        np.asarray(x, dtype=float).tobytes(), np.asarray(y, dtype=float).tobytes(), ln.get_label(), repr(ln.get_color()),
        ln.get_linewidth(), ln.get_linestyle(), ln.get_marker(), ln.get_alpha(), ln.get_zorder(), ln.get_visible(),
    )


class Plot:
    def __init__(self, trace, res, opts):
        self.tr, self.res, self.o = trace, res, opts
        self.real, self.frozen, self.lines = [], [], []

    def look(self, what):
        return what in self.o["look"]

    def run(self):
        import matplotlib.pyplot as plt

        self.plt = plt
        plt.close("all")
        try:
            f1 = plt.figure(figsize=(3, 3))
            a0, a1 = f1.add_subplot(211), f1.add_subplot(212)
            f2 = plt.figure(figsize=(3, 3))
            a2 = f2.add_subplot(projection="polar")
            self.axes = [a0, a1, a2]
            self.lines = [[], [], []]
            plt.sca(a0)
            for i, s in enumerate(self.tr):
                op = s["op"]
                self.res.act(op["act"])
                self.s = s
                self.where = {"step": i, "act": op["act"], "src": op["src"]}
                if op["src"] >= 0:
                    self.where["cls"] = s["pool"][op["src"]]["o"]["cls"]
                try:
                    getattr(self, "do_" + op["act"])(op)
                    self.check_lines()
                    self.check_objects(op["act"], op["look"] or i == len(self.tr) - 1)
                except Mismatch as e:
                    e.info = {**e.info, **self.where}
                    raise
        finally:
            plt.close("all")

    # ------------------------------------------------------------ invariants
    def check_lines(self):
        """Lines of all axes are the specified ones, old lines as they were."""
        if len(self.plt.get_fignums()) != 2:
            raise Mismatch("a figure appeared or disappeared", figures=self.plt.get_fignums())
        for j, ax in enumerate(self.axes):
            exp = self.s["axes"][j]
            if len(ax.lines) != len(exp):
                raise Mismatch("wrong number of lines on an axes", axes=j, got=len(ax.lines), expected=len(exp))
            for k, (ln, st) in enumerate(zip(ax.lines, self.lines[j])):
                if line_state(ln) != st:
                    raise Mismatch("an existing line changed", axes=j, line=k)
            self.lines[j] = [line_state(ln) for ln in ax.lines]

    def check_objects(self, after, read):
        for i, (obj, f) in enumerate(zip(self.real, self.frozen)):
            if not same_snapshot(f, snapshot(obj)):
                raise Mismatch("an existing distribution changed", object=i, after=after)
            p = self.s["pool"][i]
            if not (read and self.look("bounds")):
                continue
            lo = call("min_value", lambda: obj.min_value, res=self.res)
            self.same_bound(lo, p["lo"], "lower", i, after)
            if p["hi"]["set"]:
                self.same_bound(call("max_value", lambda: obj.max_value, res=self.res), p["hi"], "upper", i, after)
            else:
                self.res.impl_calls += 1
                try:
                    hi = obj.max_value
                except ValueError:
                    continue
                raise Mismatch("an upper bound that was never given", object=i, got=repr(hi), after=after)

    def same_bound(self, got, e, which, i, after):
        try:
            ok = np.ndim(got) == 0 and abs(float(got) - end(e)) <= 1e-12 * max(1.0, abs(end(e)))
        except Exception:
            ok = False
        if not ok:
            raise Mismatch(f"wrong {which} bound", object=i, cls=type(self.real[i]).__name__, got=repr(got), expected=end(e), after=after)

    # ------------------------------------------------------------ actions
    def keep(self, obj):
        self.real.append(obj)
        self.frozen.append(snapshot(obj))

    def layout(self, o):
        # plain: no arrays of one element standing for all lanes (indexing is about full shapes)
        return {**L.dims_layout(o["dims"]), "plain": bool(self.o.get("plain"))}

    def do_create(self, op):
        o = self.s["pool"][op["dst"]]["o"]
        self.res.count(f"create {o['cls']} {len(o['dims'])}d")
        self.where["cls"] = o["cls"]
        self.keep(call(f"{o['cls']}(...)", L.build_dist, o["cls"], o["args"], self.layout(o), res=self.res))

    def do_bounds(self, op):
        p, obj, how = self.s["pool"][op["src"]], self.real[op["src"]], op["how"]
        lo = bound(p["lo"], op["forms"][0]) if not p["lo"]["pi"] else None
        hi = bound(p["hi"], op["forms"][1]) if p["hi"]["set"] and not p["hi"]["pi"] else None
        self.res.count(f"bounds {how}")
        if how == "min_value" or how == "max_value":
            call(how, setattr, obj, how, lo if how == "min_value" else hi, res=self.res)
            return
        fns = {
            "set_min_value": lambda: obj.set_min_value(lo),
            "set_max_value": lambda: obj.set_max_value(hi),
            "set_bounds": lambda: obj.set_bounds(lo, hi) if op["forms"][0] % 2 else obj.set_bounds(lower=lo, upper=hi),
            "chain": lambda: obj.set_min_value(lo).set_max_value(hi),
            "chainback": lambda: obj.set_max_value(hi).set_min_value(lo),
        }
        out = call(how, fns[how], res=self.res)
        if out is not obj:
            raise Mismatch("setting bounds does not return the object", how=how, got=repr(out)[:200])

    def do_assign(self, op):
        p = self.s["pool"][op["src"]]["o"]
        lay = self.layout(p)
        a, cls, obj = op["args"][0], p["cls"], self.real[op["src"]]
        if a["name"] == "dir":
            v = L.make({**a, "ints": False}, lay, L.direction)
        elif a["name"] == "sigma2" and cls != "ScaledInverseChiSquared":
            v = L.make(a, lay, L.root)
        elif a["name"] == "one_start":
            v = L.flag(a)
        else:
            v = L.make(a, lay)
        setattr(obj, attr_of(cls, a["name"]), v)
        self.frozen[op["src"]] = snapshot(obj)

    def do_index(self, op):
        key = real_key(op["key"])
        self.keep(call("index", self.real[op["src"]].__getitem__, key, res=self.res))

    def do_draw(self, op):
        self.axes[op["ax"]].plot([0.0, 1.0], [0.25, 0.75], label="mine")

    def do_focus(self, op):
        self.plt.sca(self.axes[op["ax"]])

    # ------------------------------------------------------------ plotting
    def do_plot(self, op):
        p, obj = self.s["pool"][op["src"]], self.real[op["src"]]
        cls, fn = p["o"]["cls"], "plot_" + op["fn"]
        kw = {}
        if op["label"]["mode"] != "absent":
            kw["label"] = label_value(op["label"])
        colors = None
        if op["color"]["mode"] != "absent":
            kw["color"], colors = color_value(op["color"])
        mark = None
        for o in op["opts"]:
            v = OPTS[o["name"]][o["v"]]
            if o["name"] == "mark":
                kw["mark"], mark = v[0], v
            else:
                kw[o["name"]] = v
        if op["cond"]:
            kw["conditional"] = (True, np.bool_(True), 1)[op["seed"] % 3]
        elif cls in DISCRETE and op["fn"] in ("pmf", "cdf") and op["seed"] % 2:
            kw["conditional"] = (False, np.bool_(False), 0)[op["seed"] % 3]
        if cls == "Dirichlet":
            kw["random_state"] = op["seed"]
            kw["samples"] = 400 + 10 * (op["seed"] % 7)
        self.where["kw"] = repr(kw)[:400]
        args = ()
        ax = self.axes[op["ax"]]
        if op["given"]:
            if op["seed"] % 3:
                kw["ax"] = ax
            else:
                args = (ax,)
        elif op["seed"] % 5 == 0:
            kw["ax"] = None
        self.res.count(f"{fn} {cls} {len(p['o']['dims'])}d")
        before = [len(a.lines) for a in self.axes]
        cur = self.plt.gca()
        if not op["ok"]:
            self.res.impl_calls += 1
            try:
                getattr(obj, fn)(*args, **kw)
            except ValueError:
                return
            except Exception as e:
                raise Mismatch("plotting without an upper bound raised something else than ValueError", got=repr(e)[:300])
            raise Mismatch("plotting without an upper bound was accepted")
        given = snapshot_kwargs(kw)
        out = call(f"{cls}.{fn}", getattr(obj, fn), *args, res=self.res, **kw)
        if snapshot_kwargs(kw) != given:
            raise Mismatch("an argument of the plot changed")
        if out is not ax:
            raise Mismatch("the plot is not returned on the axes it was drawn on", axes=op["ax"], given=op["given"], got=repr(out))
        if op["given"] and self.plt.gca() is not cur:
            raise Mismatch("plotting on given axes changed the current axes")
        new = ax.lines[before[op["ax"]]:]
        if len(new) != len(op["lines"]):
            raise Mismatch("a plot does not draw one line per lane", got=len(new), expected=len(op["lines"]), dims=p["o"]["dims"])
        for l, (ln, spec) in enumerate(zip(new, op["lines"])):
            self.where["lane"] = l
            self.check_range(ln, spec)
            if self.look("label"):
                self.check_label(ln, spec)
            if self.look("color") and colors is not None:
                self.check_color(ln, colors[l % len(colors)] if op["color"]["mode"] == "seq" else colors[0])
            if self.look("opts"):
                self.check_opts(ln, kw, mark)
            if self.look("data"):
                self.check_data(ln, spec, p, op, l, obj, kw)

    def check_range(self, ln, spec):
        x = np.asarray(ln.get_xdata(), dtype=float)
        y = np.asarray(ln.get_ydata(), dtype=float)
        lo, hi = end(spec["lo"]), end(spec["hi"])
        if x.ndim != 1 or x.shape != y.shape or x.size < (1 if spec["cls"] in DISC else 2):
            raise Mismatch("a line without points", shape=x.shape)
        tol = 1e-9 * max(1.0, abs(lo), abs(hi))
        if abs(x[0] - lo) > tol:
            raise Mismatch("a curve does not start at the lower bound", got=x[0], expected=lo)
        if abs(x[-1] - hi) > tol:
            raise Mismatch("a curve does not end at the upper bound", got=x[-1], expected=hi)
        if np.any(np.diff(x) <= 0):
            raise Mismatch("a curve is not drawn from left to right")
        if spec["fn"] == "pmf" or spec["cls"] in DISC:
            if x.size != int(round(hi - lo)) + 1 or np.max(np.abs(x - np.round(x))) > 1e-9:
                raise Mismatch("a mass plot without every integer step", x=x.tolist()[:40], lo=lo, hi=hi)

    def check_label(self, ln, spec):
        exp = label_text(spec["label"])
        got = ln.get_label()
        if exp is None or (exp == "" and got != ""):  # matplotlib names a line itself when the label is empty
            if not str(got).startswith("_"):
                raise Mismatch("a curve without a label has one", got=got)
        elif got != exp or not isinstance(got, str):
            raise Mismatch("a curve has a wrong label", got=repr(got), expected=exp)

    def check_color(self, ln, exp):
        from matplotlib.colors import to_rgba

        a, b = to_rgba(ln.get_color()), to_rgba(exp)
        if not np.allclose(a, b, atol=1e-9):
            raise Mismatch("a curve has a wrong colour", got=a, expected=b)

    def check_opts(self, ln, kw, mark):
        got = {
            "linewidth": ln.get_linewidth(), "alpha": ln.get_alpha(), "zorder": ln.get_zorder(),
            "linestyle": ln.get_linestyle(), "marker": ln.get_marker(), "markersize": ln.get_markersize(),
        }
        for k, v in got.items():
            if k in kw and kw[k] != v:
                raise Mismatch("a line option is not applied", option=k, got=v, expected=kw[k])
        if mark is not None and (got["marker"], got["linestyle"]) != mark[1:]:
            raise Mismatch("the mark is not applied", got=(got["marker"], got["linestyle"]), expected=mark)

    def check_data(self, ln, spec, p, op, l, obj, kw):
        x = np.asarray(ln.get_xdata(), dtype=float)
        y = np.asarray(ln.get_ydata(), dtype=float)
        cls, fn = spec["cls"], spec["fn"]
        if cls == "Dirichlet":
            return self.check_kde(x, y, spec, l, kw["samples"])
        # the curve of the lane's own scalar distribution
        row = {a["name"]: a["vals"][l] for a in p["o"]["args"]}
        one = L.build_dist(cls, [{"name": k, "role": "const", "ints": False, "form": 0, "vals": [v]} for k, v in row.items()
                                 ] if cls not in INTS else
                           [{"name": k, "role": "const", "ints": k in INTS[cls], "form": 0, "vals": [v]} for k, v in row.items()],
                           L.dims_layout([]))
        with np.errstate(all="ignore"):
            exp = np.asarray(getattr(one.dist, fn)(x), dtype=float)
            if spec["cond"]:
                tot = math.fsum(exp)
                if not tot > 1e-200:
                    self.res.count("conditional on nothing")
                    return
                exp = exp / tot
        bad = ~(np.isclose(y, exp, rtol=1e-8, atol=1e-12) | (y == exp) | (np.isnan(y) & np.isnan(exp)))
        if np.any(bad):
            j = int(np.argmax(bad))
            raise Mismatch("a curve is not the one of its lane", fn=fn, x=float(x[j]), got=float(y[j]), expected=float(exp[j]),
                           cond=spec["cond"], params={k: str(v) for k, v in row.items()})
        # and exactly, where the specification knows it
        if spec["cond"]:
            if abs(math.fsum(y) - 1) > 1e-9:
                raise Mismatch("a conditional mass does not total one", got=math.fsum(y))
        logs = [logld(t)[0] for t in op["ld"][l]]
        vals = [math.exp(v) if v < 700 else math.inf for v in logs]
        pts = [float(v) for v in op["xs"][l]]
        if fn == "cdf":
            vals = list(np.cumsum(vals))
        if spec["cond"]:
            vals = [v / math.fsum(vals) for v in vals] if pts else []
        for px, pv in zip(pts, vals):
            j = int(np.argmin(np.abs(x - px)))
            if abs(x[j] - px) <= 1e-12 * max(1.0, abs(px)):
                self.res.count("exact points")
                # the point of the curve is within rounding of the exact one
                if not (abs(y[j] - pv) <= 1e-7 * abs(pv) + 1e-9):
                    raise Mismatch("a point of the curve is not on the specified one", fn=fn, x=px, got=float(y[j]), expected=pv,
                                   cond=spec["cond"], params={k: str(v) for k, v in row.items()})

    def check_kde(self, x, y, spec, l, n):
        """A smoothed sample of the component: its marginal, smoothed."""
        a = [float(spec["row"][f"a{i}"]) for i in range(4)]
        m = stats.beta(a[l], sum(a) - a[l])
        h = m.std() * n ** -0.2
        # quantiles stand for the sample
        q = m.ppf((np.arange(2000) + 0.5) / 2000)
        exp = np.mean(stats.norm.pdf(x[:, None], q[None, :], h), axis=1)
        sd = np.sqrt(np.maximum(exp, 1.0 / (n * h)) / (n * h * 2 * math.sqrt(math.pi)))
        if not np.all(np.isfinite(y)) or np.min(y) < 0:
            raise Mismatch("a density that is not a number")
        # small parameters put nearly all their mass next to the ends
        if min(a[l], sum(a) - a[l]) < 0.5:
            self.res.count("component with a spike")
            return
        dev = np.max(np.abs(y - exp) / (6 * sd + 0.25 * np.max(exp)))
        self.res.count("smoothed components")
        if dev > 1:
            raise Mismatch("the curve of a component is not its marginal", component=l, deviation=float(dev), alpha=a)


DISC = {"Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "BetaGeometric"}
INTS = {"Binomial": {"n"}, "BetaBinomial": {"n"}, "BetaNegativeBinomial": {"n"}, "Hypergeometric": {"N", "n", "k"}}


def snapshot_kwargs(kw):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in kw.items() if not callable(v) and k != "ax"}


def replayer(opts):
    def go(trace, res):
        Plot(trace, res, opts).run()

    return go
