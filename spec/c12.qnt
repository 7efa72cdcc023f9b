// -*- mode: quint -*-
// Instance(s) of algebra.qnt explored by the check of the same name.
module c12 {
  import algebra(
    CLASSES = ["Beta", "Binomial", "Exponential", "Gamma", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull", "Multinomial", "DirichletMultinomial", "BetaGeometric", "CompoundGamma"],
    DIMS = [[3], [4], [2, 2], [1], [3, 2], [12]],
    OPS = Set("new", "index", "read", "assign")).* from "./algebra"
}
