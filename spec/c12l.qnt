// -*- mode: quint -*-
// Instance of learn.qnt explored by the check C12: selection commutes with learning.
module c12l {
  import learn(
    MODELS = ["binomial_beta", "negative_binomial_beta", "geometric_beta", "poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "uniform_pareto", "weibull_inverse_gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean"],
    LAYOUTS = [{ r: 1, c: 3, arr: true }, { r: 1, c: 4, arr: true }],
    OPS = Set("update", "predict", "select"), MULT = 1, VARY_KNOWN = true).* from "./learn"
}
