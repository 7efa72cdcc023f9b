// -*- mode: quint -*-
// Instance(s) of learn.qnt explored by the check of the same name.
module c05 {
  import learn(
    MODELS = ["gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction"],
    LAYOUTS = [{ r: 1, c: 1, arr: false }, { r: 1, c: 3, arr: true }, { r: 2, c: 2, arr: true }],
    OPS = Set("update", "empty", "recover"), MULT = 2, VARY_KNOWN = true).* from "./learn"
}
