// -*- mode: quint -*-
// Instance of multi.qnt explored by the check of the same name.
module c04 {
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean", "multivariate_normal"],
    DIMS = [1, 2, 2, 3, 4], OPS = Set("update", "empty", "joint", "reorder"), VARY_KNOWN = true).* from "./multi"
}
