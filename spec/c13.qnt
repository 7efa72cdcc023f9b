// -*- mode: quint -*-
/// Learning with values that work like numbers.
///
/// The behaviours are those of learn.qnt. `numbers` says how values are written:
/// a number system, and the conventions the operations supplied by the caller
/// fit (maxima in reversed order, logarithms to another base, angles in other
/// units). What is learnt must not depend on any of it.
module c13 {
  // scalars and arrays of any shape: exact fractions, a number type of the user's
  import learn(
    MODELS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "hypergeometric_beta_binomial", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "pareto_gamma", "uniform_pareto", "uniform_pareto", "weibull_inverse_gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "log_normal", "normal_normal_inverse_gamma", "gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "predict", "joint"), MULT = 1, VARY_KNOWN = true) as L from "./learn"

  type Numbers = { system: str, order: str, base: int, angle: str }
  var numbers: Numbers
  action init = {
    nondet s = oneOf(Set("fraction", "user"))
    nondet o = oneOf(Set("up", "down"))
    nondet b = oneOf(Set(0, 2, 10))
    nondet a = oneOf(Set("radian", "degree", "turn"))
    all { L::init, numbers' = { system: s, order: o, base: b, angle: a } }
  }
  action step = all { L::step, numbers' = numbers }
  val inv = L::inv
}
module c13t {
  // one lane per label or table row: labelled series, database columns
  import learn(
    MODELS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "hypergeometric_beta_binomial", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "pareto_gamma", "uniform_pareto", "uniform_pareto", "weibull_inverse_gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "log_normal", "normal_normal_inverse_gamma", "gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 3, arr: true }, { r: 1, c: 4, arr: true }],
    OPS = Set("update", "empty", "predict", "joint"), MULT = 1, VARY_KNOWN = true) as L from "./learn"

  type Numbers = { system: str, order: str, base: int, angle: str }
  var numbers: Numbers
  action init = {
    nondet s = oneOf(Set("series", "sql"))
    nondet o = oneOf(Set("up", "down"))
    nondet b = oneOf(Set(0, 2, 10))
    nondet a = oneOf(Set("radian", "degree", "turn"))
    all { L::init, numbers' = { system: s, order: o, base: b, angle: a } }
  }
  action step = all { L::step, numbers' = numbers }
  val inv = L::inv
}
module c13m {
  // matrices of other numbers; inverse, identity and outer product are supplied
  import multi(
    MODELS = ["linear_regression", "linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean", "multivariate_normal"],
    DIMS = [1, 2, 2, 3], OPS = Set("update", "predict", "joint"), VARY_KNOWN = true) as L from "./multi"

  type Numbers = { system: str, unit: int }
  var numbers: Numbers
  action init = {
    nondet s = oneOf(Set("fraction", "user", "float"))
    nondet u = oneOf(Set(1, 4))
    all { L::init, numbers' = { system: s, unit: u } }
  }
  action step = all { L::step, numbers' = numbers }
  val inv = L::inv
}
module c13r {
  // log likelihood methods with the caller's logarithm, log gamma, cosine and Bessel function
  import learn(
    MODELS = ["gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }],
    OPS = Set("update", "recover"), MULT = 1, VARY_KNOWN = true) as L from "./learn"

  type Numbers = { system: str, order: str, base: int, angle: str, lnw: int, gw: int }
  var numbers: Numbers
  action init = {
    nondet s = oneOf(Set("fraction", "user"))
    nondet a = oneOf(Set("radian", "degree", "turn"))
    nondet k = oneOf(Set(1, 2, 5))
    nondet g = oneOf(Set(1, 2, 3))
    all { L::init, numbers' = { system: s, order: "up", base: 0, angle: a, lnw: k, gw: g } }
  }
  action step = all { L::step, numbers' = numbers }
  val inv = L::inv
}
