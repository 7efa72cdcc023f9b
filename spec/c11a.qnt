// -*- mode: quint -*-
// Instance of algebra.qnt: densities and alternative constructors lane by lane.
module c11a {
  import algebra(
    CLASSES = ["Beta", "Binomial", "Exponential", "Gamma", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull", "Dirichlet", "Multinomial", "DirichletMultinomial", "BetaGeometric", "CompoundGamma"],
    DIMS = [[3], [2, 3], [2, 2], [1], [3, 1]],
    OPS = Set("new", "read", "alternative")).* from "./algebra"
}
