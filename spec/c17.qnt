// -*- mode: quint -*-
// Instance(s) of algebra.qnt explored by the check of the same name.
module c17 {
  import algebra(
    CLASSES = ["InverseGamma", "ScaledInverseChiSquared", "NormalInverseGamma", "NormalGamma"],
    DIMS = [[], [], [3], [2, 2]],
    OPS = Set("new", "read", "convert", "alternative")).* from "./algebra"
}
