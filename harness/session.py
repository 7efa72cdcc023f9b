"""Replaying behaviours of spec/c14.qnt: learning interleaved with everything else.

Besides the comparisons of learn.py and multi.py, everything that exists is
compared with what it was after every operation, the caller's arrays and the
global settings included; at the end every call is made once more.
"""

import copy
from dataclasses import fields

import numpy as np

from . import real
from .algebra import repeat_journal
from .core import Mismatch, Timeout
from .learn import Learn, same_outcome, same_snapshot, snapshot
from .multi import Multi


def world():
    """Settings that calls could leave changed."""
    import matplotlib

    rc = {k: repr(v) for k, v in dict.items(matplotlib.rcParams) if k != "backend"}
    return {"random": repr(np.random.get_state(legacy=False)), "errors": repr(np.geterr()),
            "print": repr(np.get_printoptions()), "plotting": rc}


def names(obj):
    return [f.name for f in fields(obj)]


def values(obj):
    return {n: getattr(obj, n) for n in names(obj)}


class Visits:
    """Operations whose specified effect is none."""

    def setup(self):
        import matplotlib.pyplot as plt

        self.plt = plt
        self.journal = []
        self.given = []  # (name, array, snapshot)
        self.before_world = world()

    def go(self):
        np.random.seed(7)
        self.setup()
        real.JOURNAL = []
        try:
            self.run()
            repeat_journal()
            for kind, at, seed, out in reversed(self.journal):
                again = self.perform(kind, self.real[at], seed)
                if not same_outcome(out, again):
                    raise Mismatch(f"{kind} of the same object gives another result later", object=repr(self.real[at])[:300],
                                   first=repr(out)[:400], again=repr(again)[:400])
        finally:
            real.JOURNAL = None
            self.plt.close("all")

    def check_world(self, after):
        now = world()
        for k in now:
            if now[k] != self.before_world[k]:
                raise Mismatch("a call changed a global setting", setting=k, after=after)

    # -------------------------------------------------------- the caller's arrays
    def give(self, kw):
        """The arguments of a call; arrays of earlier updates are written over on request.

        (A predictive distribution holds the arrays it was given.)
        """
        act = self.tr[self.step]["op"]["act"]
        if self.visit["reuse"] and act != "predict":
            for n, v in kw.items():
                if isinstance(v, np.ndarray) and v.size:
                    for m, old, by in self.given:
                        if by != "predict" and m == n and old.shape == v.shape and old.dtype == v.dtype and old.flags.writeable and old is not v:
                            self.res.count("array written over")
                            old[...] = v
                            kw[n] = old
                            break
        self.given += [(n, v, act) for n, v in kw.items() if isinstance(v, np.ndarray)]
        self.given_now = [(n, v, snapshot(v)) for n, v, _ in self.given]
        return kw

    def check_given(self, after):
        for n, v, snap in self.given_now:
            if not same_snapshot(snap, snapshot(v)):
                raise Mismatch("an argument was changed", name=n, after=after)

    given_now = ()

    # -------------------------------------------------------- visits
    def do_visit(self, *a):
        v = self.visit
        if v["kind"] == "edit" and not self.own(v["at"]):
            return
        obj = self.real[v["at"]]
        self.res.count(f"visit {v['kind']}")
        self.res.impl_calls += 1
        out = self.perform(v["kind"], obj, v["seed"])
        self.journal.append((v["kind"], v["at"], v["seed"], out))

    def perform(self, kind, obj, seed):
        try:
            with np.errstate(all="ignore"):
                return getattr(self, "visit_" + kind)(obj, seed)
        except (Timeout, MemoryError, Mismatch):
            raise
        except Exception as e:
            return ("raised", type(e).__name__)

    def points(self, obj):
        n = type(obj).__name__
        if n in ("InverseWishart", "Wishart"):
            m = np.asarray(getattr(obj, "psi", getattr(obj, "V", None)))
            return [np.eye(m.shape[0])]
        if n in ("MultivariateNormal", "MultivariateStudentT"):
            return [np.zeros(np.shape(obj.mu))]
        if n == "Dirichlet":
            return [np.full(np.shape(obj.alpha)[-1], 1 / np.shape(obj.alpha)[-1])]
        if n == "DirichletMultinomial":
            return []
        return [0.25, 1.0, 3.0]

    def visit_density(self, obj, seed):
        if hasattr(obj, "approx_log_likelihood"):
            kw = {"kappa": 1.5} if type(obj).__name__.startswith("VonMises") else {"alpha": 1.5, "beta": 2.5}
            return obj.approx_log_likelihood(**kw)
        if hasattr(obj, "log_likelihood"):
            return obj.log_likelihood(mu=0.5)
        d = obj.dist
        out = []
        for x in self.points(obj):
            for f in ("logpdf", "logpmf", "cdf", "mean"):
                if hasattr(d, f) and (f != "cdf" or np.ndim(x) == 0):
                    try:
                        out.append(getattr(d, f)(x) if f != "mean" else d.mean())
                    except Exception as e:
                        out.append(type(e).__name__)
        return out

    def visit_sample(self, obj, seed):
        shape = np.broadcast_shapes(*[np.shape(v) for v in values(obj).values() if v is not None]) if type(obj).__name__ in (
            "NormalInverseGamma", "NormalGamma") and getattr(obj, "delta_inverse", None) is None else ()
        if hasattr(obj, "sample_mean"):
            size = (2, *shape) if shape else 2
            m, v = obj.sample_mean(size=size, return_variance=True, random_state=seed)
            out = [m, v, obj.sample_variance(size=size, random_state=seed)]
            if getattr(obj, "delta_inverse", None) is not None:
                out.append(obj.sample_beta(size=2, random_state=seed))
            return out
        d = obj.dist
        try:
            return d.rvs(size=2, random_state=seed)
        except ValueError:
            pass
        shape = np.broadcast_shapes(*[np.shape(v) for v in values(obj).values() if v is not None])
        return d.rvs(size=(2, *shape), random_state=seed)

    def visit_plot(self, obj, seed):
        fig = self.plt.figure(figsize=(2, 2))
        try:
            ax = fig.add_subplot(111)
            kind = ["plot_pdf", "plot_pmf", "plot_cdf"][seed % 3]
            if not hasattr(obj, kind):
                kind = "plot_pdf" if hasattr(obj, "plot_pdf") else "plot_pmf"
            # (bounds belong to the object; they are given back below)
            held = {k: v for k, v in vars(obj).items() if k not in names(obj)}
            # (drawing a Dirichlet distribution takes a sample)
            state = np.random.get_state() if type(obj).__name__ == "Dirichlet" else None
            try:
                if state is not None:
                    np.random.seed(seed)
                obj.set_bounds(0, 4 + seed % 3) if hasattr(obj, "set_bounds") else None
                getattr(obj, kind)(ax=ax, label="x" if seed % 2 else None)
            finally:
                if state is not None:
                    np.random.set_state(state)
                for k in list(vars(obj)):
                    if k not in names(obj):
                        delattr(obj, k)
                for k, v in held.items():
                    setattr(obj, k, v)
            return [[np.asarray(x, float) for x in ln.get_data()] + [ln.get_label()] for ln in ax.get_lines()]
        finally:
            self.plt.close(fig)

    def visit_scale(self, obj, seed):
        k = 2 + seed % 3
        return [k * obj, obj * k]

    def visit_convert(self, obj, seed):
        out = []
        for f in ("inverse_gamma", "gamma", "inverse_wishart"):
            if hasattr(obj, f):
                out.append(getattr(obj, f))
        if hasattr(obj, "to_inverse_gamma"):
            ig = obj.to_inverse_gamma()
            out += [ig, type(obj).from_inverse_gamma(ig)]
        return out

    def visit_index(self, obj, seed):
        return [obj[k] for k in (0, -1, [0], slice(0, 1), slice(None, None, -1))]

    def visit_assign(self, obj, seed):
        """Another parameter and the old one back; nobody else may notice."""
        ns = [n for n in names(obj) if getattr(obj, n) is not None and n != "one_start"]
        n = ns[seed % len(ns)]
        old = getattr(obj, n)
        try:
            setattr(obj, n, old * 1.5 if np.ndim(old) else old + 1)
            for o, snap in self.existing():
                if o is obj:
                    continue
                if not same_snapshot(snap, snapshot(o)):
                    raise Mismatch("assigning a parameter changed another distribution", field=n, of=repr(obj)[:200], changed=repr(o)[:200])
            self.perform("density", obj, seed)
            self.learn_anew(obj)
        finally:
            setattr(obj, n, old)
        return self.perform("density", obj, seed)

    def learn_anew(self, obj):
        """What is learned with a belief whose parameters were reassigned is what is learned with a new one."""
        for what, fn, a, k, _ in [c for c in real.JOURNAL or [] if any(v is obj for v in c[3].values())][-3:]:
            outs = []
            for o in (obj, type(obj)(**copy.deepcopy(values(obj)))):
                try:
                    with np.errstate(all="ignore"):
                        outs.append(fn(*a, **{n: o if v is obj else v for n, v in k.items()}))
                except (Timeout, MemoryError):
                    raise
                except Exception as e:
                    outs.append(("raised", type(e).__name__))
            if not same_outcome(*outs):
                raise Mismatch(f"{what} with a belief whose parameters were reassigned", got=repr(outs[0])[:400], expected=repr(outs[1])[:400])

    def visit_edit(self, obj, seed):
        """A belief's numbers are written to in place, and back; no other belief may notice.

        (Predictive distributions and selections hold the numbers of the belief.)
        """
        for n in names(obj):
            a = getattr(obj, n)
            if not (isinstance(a, np.ndarray) and a.flags.writeable and a.size):
                continue
            old = np.copy(a)
            try:
                a += 1
                for i, (o, snap) in enumerate(self.existing()):
                    if o is not obj and self.own(i) and not same_snapshot(snap, snapshot(o)):
                        raise Mismatch("two beliefs share their numbers", field=n, of=repr(obj)[:200], other=repr(o)[:200])
            finally:
                a[...] = old
        return self.perform("density", obj, seed)

    def visit_print(self, obj, seed):
        return [repr(obj), str(obj)]

    def visit_copy(self, obj, seed):
        c = copy.deepcopy(obj)
        if not same_snapshot(snapshot(c), snapshot(obj)):
            raise Mismatch("a copy differs", of=repr(obj)[:200], copy=repr(c)[:200])
        n = names(obj)[seed % len(names(obj))]
        setattr(c, n, 0.5)
        return c

    def visit_twin(self, obj, seed):
        """A second distribution with the same parameters does the same."""
        t = type(obj)(**copy.deepcopy(values(obj)))
        for kind in ("density", "sample", "scale"):
            a, b = self.perform(kind, obj, seed), self.perform(kind, t, seed)
            if not same_outcome(a, b):
                raise Mismatch(f"{kind}: two distributions with the same parameters differ", of=repr(obj)[:300],
                               first=repr(a)[:300], second=repr(b)[:300])
        return t


class LearnSession(Visits, Learn):
    def existing(self):
        return [(o, s) for _, o, s in self.frozen]

    def own(self, at):
        return self.tr[self.step]["pool"][at]["kind"] in ("prior", "belief", "joint")

    def kwargs(self, op):
        return self.give(super().kwargs(op))

    def freeze(self, tag, obj):
        if tag != "an argument":
            super().freeze(tag, obj)

    def keep_args(self, kw):
        return {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in kw.items()}

    def check_frozen(self, after):
        super().check_frozen(after)
        self.check_given(after)
        self.check_world(after)

    @property
    def visit(self):
        return self.tr[self.step]["visit"]

    def begin(self, i):
        self.step = i


class MultiSession(Visits, Multi):
    def existing(self):
        return list(zip(self.real, self.frozen))

    def own(self, at):
        return self.tr[self.step]["pool"][at]["kind"] in ("prior", "belief", "joint")

    def enc(self, x):
        return self.give(x) if isinstance(x, dict) and self.giving else x

    giving = False

    def do_update(self, op):
        self.giving = True
        try:
            super().do_update(op)
        finally:
            self.giving = False

    def keep(self, obj, kw=None):
        args, self.args = self.args, []
        super().keep(obj, kw)
        self.args = args

    def check_frozen(self, after):
        super().check_frozen(after)
        self.check_given(after)
        self.check_world(after)

    @property
    def visit(self):
        return self.tr[self.step]["visit"]

    def begin(self, i):
        self.step = i


def replayer(opts):
    def go(trace, res):
        cls = MultiSession if "p" in trace[0] else LearnSession
        cls(trace, res, {**opts, "purity": True}).go()

    return go
