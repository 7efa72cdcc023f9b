// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c06h {
  import learn(
    MODELS = ["hypergeometric_beta_binomial"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty"), MULT = 1, VARY_KNOWN = false).* from "./learn"
}
