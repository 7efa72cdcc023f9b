// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c03 {
  import learn(
    MODELS = ["normal_known_variance", "normal_known_precision", "normal_known_mean", "normal", "normal", "log_normal", "normal_normal_inverse_gamma"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "predict"), MULT = 1, VARY_KNOWN = true).* from "./learn"
}
