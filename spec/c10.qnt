// -*- mode: quint -*-
// Instance(s) of algebra.qnt explored by the check of the same name.
module c10 {
  import algebra(
    CLASSES = ["BetaGeometric", "CompoundGamma"],
    DIMS = [[], [3], [2, 2], [1]],
    OPS = Set("new", "read", "assign")).* from "./algebra"
}
