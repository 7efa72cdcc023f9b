// -*- mode: quint -*-
/// Distribution objects as values: class, lanes and constructor arguments.
module objects {
  import rat.* from "./rat"
  import families.* from "./families"
  import models.* from "./models"
  import args.* from "./args"

  /// dims: [] for scalars, [c] for a vector of lanes, [r, c] for a table.
  type Obj = { cls: str, dims: List[int], args: List[Arg] }

  // ---------------------------------------------------------------- objects
  pure def vonMises(cls: str): bool = cls == "VonMises"
  pure def distFields(cls: str): List[Field] =
    if (cls == "Binomial") [fd("n", "trials"), fd("p", "prob")]
    else if (cls == "Exponential" or cls == "Poisson") [fd("lam", "pos")]
    else if (cls == "NegativeBinomial") [fd("n", "pos"), fd("p", "prob1")]
    else if (cls == "Hypergeometric") [fd("N", "popN"), fd("k", "popk"), fd("n", "popn")]
    else if (cls == "BetaBinomial") [fd("n", "trials"), fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "BetaNegativeBinomial") [fd("n", "trials"), fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "Geometric") [fd("p", "prob1"), fd("one_start", "bit")]
    else if (cls == "BetaGeometric") [fd("alpha", "pos"), fd("beta", "pos"), fd("one_start", "bit")]
    else if (cls == "Uniform") [fd("low", "low"), fd("high", "high")]
    else if (cls == "StudentT") [fd("mu", "real"), fd("sigma2", "square"), fd("nu", "pos")]
    else if (cls == "Lomax") [fd("alpha", "pos"), fd("lam", "pos")]
    else if (cls == "CompoundGamma") [fd("alpha", "pos"), fd("beta", "pos"), fd("lam", "pos")]
    else if (cls == "VonMises") [fd("dir", "dir"), fd("kappa", "posm")]
    else if (cls == "LogNormal") [fd("mu", "mod0"), fd("sigma2", "square")]
    else if (cls == "Weibull") [fd("beta", "wshape"), fd("theta", "posm")]
    else if (cls == "Multinomial") [fd("n", "trials_s"), fd("p0", "quarter"), fd("p1", "eighth"), fd("p2", "eighth"), fd("p3", "half")]
    else if (cls == "DirichletMultinomial") [fd("n", "trials_s"), fd("a0", "pos"), fd("a1", "pos"), fd("a2", "pos"), fd("a3", "pos")]
    else paramFields(cls)

  pure def dirField(f: str): bool = f == "dir"
  pure def layoutOf(dims: List[int]): Layout =
    if (dims.length() == 0) { r: 1, c: 1, arr: false }
    else if (dims.length() == 1) { r: 1, c: dims[0], arr: true }
    else { r: dims[0], c: dims[1], arr: true }
  pure def lanesIn(dims: List[int]): int = lanesOf(layoutOf(dims))
  pure def vector(cls: str): bool = Set("Dirichlet", "Multinomial", "DirichletMultinomial").contains(cls)

  /// The raw values of a field (directions are given by their index).
  pure def rawRow(args: List[Arg], l: int): Row = rowOf(args, l)
  pure def cook(cls: str, r: Row): Row =
    if (cls == "VonMises") { val d = dirs[r.get("dir").n] Map("c" -> d.get("c"), "s" -> d.get("s"), "kappa" -> r.get("kappa")) }
    else r
  pure def rowsOf(o: Obj): List[Row] = toList(0.to(lanesIn(o.dims) - 1).mapBy(l => cook(o.cls, rawRow(o.args, l))))

  /// Roles an argument can take: tables also have row and column vectors.
  pure def rolesOf(dims: List[int], simple: bool): List[str] =
    if (dims.length() == 0) ["const"]
    else if (dims.length() == 1 or simple) ["const", "full"]
    else ["const", "row", "col", "full"]

  /// Two fields that only make sense together keep one role.
  pure def oneRole(cls: str, f: str): bool = vector(cls) and f != "n"

  pure def genField(f: Field, cls: str, role: str, w: int, k: int, dims: List[int]): Arg = {
    val lay = layoutOf(dims)
    val io = rnd(w, k + 1, 3) == 0
    mkArg(f.name, if (f.name == "one_start") "const" else role, w, k + 5,
      toList(0.to(lanesOf(lay) - 1).mapBy(l =>
        valueOf(f.dom, w, k + 40 + (if (f.name == "one_start") 0 else idx(role, lay, l)), io))))
  }
  pure def genObj(cls: str, dims: List[int], w: int, simple: bool): Obj = {
    val fs = distFields(cls)
    val rs = rolesOf(dims, simple)
    // at least one argument varies when there are lanes
    val must = rnd(w, 91, fs.select(f => f.name != "one_start").length())
    { cls: cls, dims: dims,
      args: toList(0.to(fs.length() - 1).mapBy(i => {
        val role = if (dims.length() > 0 and (i == must or (vector(cls) and oneRole(cls, fs[i].name)))) "full"
                   else pick(w, 1000 + (if (oneRole(cls, fs[i].name)) 0 else i), rs)
        genField(fs[i], cls, role, w, 2000 + 1000 * i, dims)
      })) }
  }
  /// Does indexing apply: some array, and every array of the full shape?
  pure def sliceable(o: Obj): bool =
    o.dims.length() > 0 and lanesIn(o.dims) > 0
      and not(Set("Dirichlet", "NormalInverseGamma", "NormalGamma").contains(o.cls))
      and o.args.indices().forall(i => o.args[i].role == "const" or o.args[i].role == "full")
      and o.args.indices().exists(i => o.args[i].role == "full")

}
