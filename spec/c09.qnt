// -*- mode: quint -*-
// Instance(s) of algebra.qnt explored by the check of the same name.
module c09 {
  import algebra(
    CLASSES = ["Beta", "Binomial", "Exponential", "Gamma", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull", "Dirichlet", "Multinomial", "DirichletMultinomial", "BetaGeometric", "CompoundGamma"],
    DIMS = [[], [], [3], [2, 2], [1]],
    OPS = Set("new", "read", "assign")).* from "./algebra"
}
