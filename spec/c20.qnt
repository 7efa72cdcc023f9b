// -*- mode: quint -*-
// Instance(s) of sampling.qnt explored by the check of the same name.
module c20 {
  import sampling(CLASSES = ["NormalInverseGamma", "NormalGamma", "Regression", "NormalWishart", "NormalInverseWishart"],
    DIMS = [[], [], [3], [2, 2]], OPS = ["create", "reassign", "law"]).* from "./sampling"
}
