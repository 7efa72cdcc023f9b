// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c01 {
  import learn(
    MODELS = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet", "multinomial_dirichlet", "poisson_gamma", "hypergeometric_beta_binomial"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "predict"), MULT = 2, VARY_KNOWN = true).* from "./learn"
}
