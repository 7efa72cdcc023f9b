// -*- mode: quint -*-
// Instance of multi.qnt explored by the check c06.
module c06m {
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean", "multivariate_normal"],
    DIMS = [1, 2, 3], OPS = Set("update", "empty", "joint", "reorder"), VARY_KNOWN = false).* from "./multi"
}
