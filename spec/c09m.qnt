// -*- mode: quint -*-
// Instance of multi.qnt explored by the check c09.
module c09m {
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal_known_mean", "multivariate_normal", "none:t", "none:nw"],
    DIMS = [1, 2, 3], OPS = Set("update", "predict", "read", "assign", "convert"), VARY_KNOWN = true).* from "./multi"
}
