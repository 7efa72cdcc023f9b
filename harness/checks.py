"""The registered checks: which modules are simulated and how they are replayed."""

from . import core


def sim_job(res, spec, main, seed, samples, steps, kind, opts, limit=60):
    from importlib import import_module

    traces = core.quint_run(spec, main, seed, samples, steps)
    mod = import_module(f"harness.{kind}")
    meta = {"spec": spec, "module": main, "seed": seed, "steps": steps, "samples": samples}
    core.replay_traces(traces, mod.replayer(opts), res, meta, limit)


def sim(spec, mains, kind, opts, quick, thorough=None, jobs=8):
    """jobs simulations, spread over the modules `mains`."""

    def make(tier, seed):
        samples, steps = quick if tier == "quick" else (thorough or (quick[0] * 6, quick[1] + 4))
        n = jobs if tier == "quick" else jobs * 3
        return [
            (sim_job, dict(spec=spec, main=mains[j % len(mains)], seed=seed * 100003 + j * 7919 + 1,
                           samples=samples, steps=steps, kind=kind, opts=opts))
            for j in range(n)
        ]

    return make


def table(spec, mains, kind, steps, opts=None):
    """One complete behaviour of each of the modules `mains` (an enumeration)."""

    def make(tier, seed):
        return [(sim_job, dict(spec=spec, main=m, seed=seed + j, samples=1, steps=steps, kind=kind, opts=opts or {}, limit=300))
                for j, m in enumerate(mains)]

    return make


# functions x things of spec/kinds.qnt
NPAIRS = 48 * (38 * 5 + 13)

ASSUME = [
    "quint's simulator evaluates the specification correctly",
    "floating point agreement within relative 1e-9 counts as equality",
]

CHECKS = {
    "C01": dict(jobs=[sim("c01.qnt", ["c01"], "learn", {"hypergeometric": True, "predict": False}, (60, 8))]),
    "C02": dict(jobs=[sim("c02.qnt", ["c02"], "learn", {}, (60, 8))]),
    "C03": dict(jobs=[sim("c03.qnt", ["c03"], "learn", {"deprecated": True}, (60, 8))]),
    "C04": dict(jobs=[sim("c04.qnt", ["c04"], "multi", {}, (150, 8))]),
    "C05": dict(jobs=[sim("c05.qnt", ["c05"], "learn", {"recover": "method"}, (60, 8))]),
    "C06": dict(jobs=[
        sim("c06.qnt", ["c06"], "learn", {"empty_real": True}, (75, 10), jobs=6),
        sim("c06m.qnt", ["c06m"], "multi", {}, (80, 8), jobs=2),
        sim("c06h.qnt", ["c06h"], "learn", {"empty_real": True, "hypergeometric": True}, (15, 6), jobs=1)]),
    "C07": dict(jobs=[sim("c07.qnt", ["c07"], "learn", {"predict": True}, (50, 8))]),
    "C08": dict(jobs=[
        sim("c08.qnt", ["c08"], "learn", {"predict": True}, (50, 8), jobs=6),
        sim("c08m.qnt", ["c08m"], "multi", {}, (60, 7), jobs=3)]),
    "C09": dict(jobs=[
        sim("c09.qnt", ["c09"], "algebra", {}, (50, 10), jobs=7),
        sim("c09m.qnt", ["c09m"], "multi", {}, (90, 9), jobs=2)]),
    "C10": dict(jobs=[
        sim("c10.qnt", ["c10"], "algebra", {}, (45, 10), jobs=5),
        sim("c10r.qnt", ["c10r"], "sampling", {}, (60, 10), jobs=3)]),
    "C11": dict(jobs=[
        sim("c11.qnt", ["c11"], "learn", {"scalar_lanes": True}, (60, 6)),
        sim("c11a.qnt", ["c11a"], "algebra", {}, (60, 10), jobs=2)]),
    "C12": dict(jobs=[
        sim("c12.qnt", ["c12"], "algebra", {"plain": True}, (50, 12), jobs=6),
        sim("c12l.qnt", ["c12l"], "learn", {"plain": True}, (60, 10), jobs=2),
        sim("c12m.qnt", ["c12m"], "multi", {}, (70, 8), jobs=2)]),
    "C13": dict(jobs=[
        sim("c13.qnt", ["c13"], "learn", {"predict": "params"}, (45, 8), jobs=4),
        sim("c13.qnt", ["c13t"], "learn", {"predict": "params"}, (45, 8), jobs=4),
        sim("c13.qnt", ["c13r"], "learn", {"recover": "supplied"}, (40, 7), jobs=1),
        sim("c13.qnt", ["c13m"], "multi", {}, (60, 7), jobs=1)]),
    "C14": dict(jobs=[
        sim("c14.qnt", ["c14"], "session", {"plain": True}, (60, 14), jobs=5),
        sim("c14.qnt", ["c14m"], "session", {}, (60, 12), jobs=2),
        sim("c14.qnt", ["c14a"], "algebra", {"purity": True}, (50, 12), jobs=1)]),
    "C15": dict(jobs=[
        table("c15.qnt", [f"c15p{i}" for i in range(6)], "kinds", 1700),
        sim("c15.qnt", ["c15n"], "kinds", {}, (150, 25), jobs=2)], exhaustive={"offer": NPAIRS}),
    "C16": dict(jobs=[sim("c16.qnt", ["c16"], "algebra", {}, (60, 12))]),
    "C17": dict(jobs=[
        sim("c17.qnt", ["c17"], "algebra", {}, (60, 12), jobs=7),
        sim("c17m.qnt", ["c17m"], "multi", {}, (100, 9), jobs=2)]),
    "C18": dict(jobs=[sim("c18.qnt", ["c18"], "plot", {"look": ["data"], "plain": True}, (90, 16))]),
    "C19": dict(jobs=[sim("c19.qnt", ["c19"], "plot", {"look": ["data", "label", "color", "opts"]}, (90, 16))]),
    "C20": dict(jobs=[sim("c20.qnt", ["c20"], "sampling", {}, (26, 9))]),
    "C21": dict(jobs=[sim("c21.qnt", ["c21"], "plot", {"look": ["bounds"], "plain": True}, (90, 18))]),
    "C22": dict(jobs=[sim("c22.qnt", ["c22"], "sampling", {}, (120, 16))]),
    "C23": dict(jobs=[sim("c23.qnt", ["c23"], "learn", {"recover": "class"}, (50, 8))]),
}

NOTES = {
    "C01": "Exact rational hyperparameters and Bayes' rule kernels for the count models; histories of updates, empty batches and predictions.",
}
NOT_YET = {}
