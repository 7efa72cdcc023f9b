// -*- mode: quint -*-
/// Sessions: learning interleaved with everything else one can do to a distribution.
///
/// The behaviours are those of learn.qnt and multi.qnt, with two additions.
/// `visit`: some member of the pool is looked at, sampled from, drawn, scaled,
/// converted, indexed, copied, or given another parameter (or, in place, other
/// numbers) and the old ones back; the
/// specified effect on the pool is none. `reuse`: the caller writes the data of a
/// call into the arrays of an earlier call; the results of the earlier call stay
/// what they were, and the new result is the one of the new data.
module c14 {
  import args.* from "./args"
  import rat.* from "./rat"
  import learn(
    MODELS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "uniform_pareto", "weibull_inverse_gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "log_normal", "normal_normal_inverse_gamma", "gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "predict", "joint", "select"), MULT = 1, VARY_KNOWN = true) as L from "./learn"

  type Visit = { kind: str, at: int, seed: int, reuse: bool }
  pure val kinds: List[str] = ["density", "sample", "plot", "scale", "convert", "index", "assign", "print", "copy", "twin", "edit"]
  var visit: Visit
  /// The pool before the last operation.
  var before: List[L::Obj]

  action init = all { L::init, before' = [], visit' = { kind: "", at: -1, seed: 0, reuse: false } }
  action learning = {
    nondet w = 0.to(bigW).oneOf()
    all { L::step, before' = L::pool, visit' = { kind: "", at: -1, seed: w % 1000, reuse: rnd(w, 1, 2) == 0 } }
  }
  action look = {
    nondet w = 0.to(bigW).oneOf()
    all {
      L::model' = L::model, L::prior' = L::prior, L::layout' = L::layout, L::knownArgs' = L::knownArgs, L::pool' = L::pool,
      L::op' = L::op.with("act", "visit"),
      before' = L::pool,
      visit' = { kind: pick(w, 1, kinds), at: rnd(w, 2, L::pool.length()), seed: w % 1000, reuse: false },
    }
  }
  action step = any { learning, look, look }

  /// What exists stays what it is.
  val frame = L::pool.length() >= before.length() and before.indices().forall(i => L::pool[i] == before[i])
  val inv = L::inv and frame
}
module c14m {
  import args.* from "./args"
  import rat.* from "./rat"
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean", "multivariate_normal", "none:nw", "none:t"],
    DIMS = [1, 2, 2, 3], OPS = Set("update", "empty", "predict", "joint", "index", "convert"), VARY_KNOWN = true) as L from "./multi"

  type Visit = { kind: str, at: int, seed: int, reuse: bool }
  pure val kinds: List[str] = ["density", "sample", "plot", "convert", "index", "assign", "print", "copy", "twin", "edit"]
  var visit: Visit
  var before: List[L::Obj]

  action init = all { L::init, before' = [], visit' = { kind: "", at: -1, seed: 0, reuse: false } }
  action learning = {
    nondet w = 0.to(bigW).oneOf()
    all { L::step, before' = L::pool, visit' = { kind: "", at: -1, seed: w % 1000, reuse: rnd(w, 1, 2) == 0 } }
  }
  action look = {
    nondet w = 0.to(bigW).oneOf()
    all {
      L::model' = L::model, L::p' = L::p, L::pool' = L::pool, L::history' = L::history,
      L::op' = L::op.with("act", "visit"),
      before' = L::pool,
      visit' = { kind: pick(w, 1, kinds), at: rnd(w, 2, L::pool.length()), seed: w % 1000, reuse: false },
    }
  }
  action step = any { learning, look, look }
  val frame = L::pool.length() >= before.length() and before.indices().forall(i => L::pool[i] == before[i])
  val inv = L::inv and frame
}
/// Constructing, converting, scaling, adding: every call once more at the end.
module c14a {
  import algebra(
    CLASSES = ["Exponential", "Gamma", "NegativeBinomial", "Poisson", "Normal", "InverseGamma", "ScaledInverseChiSquared", "Beta", "BetaBinomial", "Uniform", "Pareto", "StudentT", "Lomax", "Weibull", "LogNormal", "Dirichlet"],
    DIMS = [[3], [4], [2, 2], [3, 2]],
    OPS = Set("new", "read", "scale", "add", "convert", "alternative")).* from "./algebra"
}
