// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c02 {
  import learn(
    MODELS = ["exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma", "uniform_pareto", "weibull_inverse_gamma_known_shape"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "predict"), MULT = 2, VARY_KNOWN = true).* from "./learn"
}
