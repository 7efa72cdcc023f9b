// -*- mode: quint -*-
// Instance of multi.qnt explored by the check c17.
module c17m {
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_mean", "multivariate_normal", "none:nw", "none:ig"],
    DIMS = [1, 2, 3], OPS = Set("update", "convert", "read"), VARY_KNOWN = true).* from "./multi"
}
