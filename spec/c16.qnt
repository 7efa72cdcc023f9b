// -*- mode: quint -*-
// Instance(s) of algebra.qnt explored by the check of the same name.
module c16 {
  import algebra(
    CLASSES = ["Exponential", "Gamma", "NegativeBinomial", "Poisson", "Normal"],
    DIMS = [[], [], [3], [2, 2], [1]],
    OPS = Set("new", "read", "scale", "add")).* from "./algebra"
}
