// -*- mode: quint -*-
// Instance of multi.qnt explored by the check c12.
module c12m {
  import multi(
    MODELS = ["linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal", "none:t"],
    DIMS = [1, 2, 3, 4], OPS = Set("update", "predict", "index", "read"), VARY_KNOWN = true).* from "./multi"
}
