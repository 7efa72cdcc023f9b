// -*- mode: quint -*-
// Instance(s) of plot.qnt explored by the check of the same name.
module c19 {
  import plot(
    CLASSES = ["Beta", "Binomial", "Exponential", "Gamma", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "Normal", "Uniform", "Pareto", "InverseGamma", "StudentT", "Lomax", "VonMises", "ScaledInverseChiSquared", "LogNormal", "Weibull", "Dirichlet", "BetaGeometric", "CompoundGamma"],
    DIMS = [[], [3], [2], [4], [1], [12]],
    OPS = Set("new", "bounds", "draw", "select", "plot"),
    DECOR = Set("label", "color", "opts", "conditional")).* from "./plot"
}
