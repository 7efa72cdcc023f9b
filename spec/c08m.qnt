// -*- mode: quint -*-
// Instance of multi.qnt explored by the check c08.
module c08m {
  import multi(
    MODELS = ["linear_regression", "linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal", "multivariate_normal"],
    DIMS = [1, 2, 2, 3], OPS = Set("update", "predict"), VARY_KNOWN = true).* from "./multi"
}
