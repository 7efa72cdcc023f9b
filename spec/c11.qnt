// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c11 {
  import learn(
    MODELS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "hypergeometric_beta_binomial", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "uniform_pareto", "weibull_inverse_gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "log_normal", "normal_normal_inverse_gamma", "gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }, { r: 3, c: 2, arr: true }, { r: 1, c: 1, arr: true }, { r: 1, c: 11, arr: true }],
    OPS = Set("update", "empty", "predict"), MULT = 1, VARY_KNOWN = true).* from "./learn"
}
