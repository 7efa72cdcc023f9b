// -*- mode: quint -*-
// Instance(s) of plot.qnt explored by the check of the same name.
module c18 {
  import plot(
    CLASSES = ["Beta", "Binomial", "Exponential", "Gamma", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull", "Dirichlet", "BetaGeometric", "CompoundGamma"],
    DIMS = [[], [], [3], [2], [4], [1], [11]],
    OPS = Set("new", "bounds", "assign", "index", "draw", "select", "plot"),
    DECOR = Set("conditional", "opts", "points")).* from "./plot"
}
