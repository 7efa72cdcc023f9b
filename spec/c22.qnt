// -*- mode: quint -*-
// Instance(s) of sampling.qnt explored by the check of the same name.
module c22 {
  import sampling(CLASSES = ["NormalInverseGamma", "NormalGamma", "Regression", "NormalWishart", "NormalInverseWishart",
                             "BetaGeometric", "CompoundGamma", "Dirichlet"],
    DIMS = [[], [], [3], [2, 2], [1], [11]], OPS = ["create", "reassign"]).* from "./sampling"
}
