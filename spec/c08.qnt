// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c08 {
  import learn(
    MODELS = ["exponential_gamma", "gamma_known_shape", "normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "normal"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "predict"), MULT = 1, VARY_KNOWN = true).* from "./learn"
}
