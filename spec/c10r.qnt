// -*- mode: quint -*-
// Instance(s) of sampling.qnt explored by the check of the same name.
module c10r {
  import sampling(CLASSES = ["BetaGeometric", "CompoundGamma"],
    DIMS = [[], [], [3], [2, 2], [1]], OPS = ["create", "reassign", "law"]).* from "./sampling"
}
