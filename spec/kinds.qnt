// -*- mode: quint -*-
/// Which beliefs each model function accepts.
///
/// A thing that can be passed has a class with a line of ancestors. A function
/// accepts it exactly when one of its documented classes is the class of the
/// thing or one of its ancestors; everything else is refused with an error
/// that names what was expected and what was received. The decision depends on
/// nothing else: not on the data, and not on what was passed before.
///
/// The normal-inverse-gamma distribution is the one class with a condition of
/// its own: exactly one of its two precisions is given when it is made. What it
/// holds can be reassigned later, so the univariate update asks again.
module kinds {
  import rat.* from "./rat"

  const PART: int
  const PARTS: int
  const MODE: str

  type Fn = { name: str, par: str, classes: List[str], out: List[str] }
  pure def upd(name: str, cls: str): Fn = { name: name, par: "prior", classes: [cls], out: [cls] }
  pure def pre(name: str, cls: str, out: str): Fn = { name: name, par: "distribution", classes: [cls], out: [out] }

  pure val FNS: List[Fn] = [
    upd("binomial_beta", "Beta"), upd("bernoulli_beta", "Beta"), upd("negative_binomial_beta", "Beta"),
    upd("geometric_beta", "Beta"), upd("hypergeometric_beta_binomial", "BetaBinomial"),
    upd("categorical_dirichlet", "Dirichlet"), upd("multinomial_dirichlet", "Dirichlet"),
    upd("poisson_gamma", "Gamma"), upd("exponential_gamma", "Gamma"), upd("gamma_known_shape", "Gamma"),
    upd("inverse_gamma_known_rate", "Gamma"), upd("pareto_gamma", "Gamma"),
    upd("normal_known_variance", "Normal"), upd("normal_known_precision", "Normal"),
    { name: "normal_known_mean", par: "prior", classes: ["InverseGamma", "ScaledInverseChiSquared"],
      out: ["InverseGamma", "ScaledInverseChiSquared"] },
    { name: "normal", par: "prior", classes: ["NormalInverseGamma", "NormalGamma"], out: ["NormalInverseGamma", "NormalGamma"] },
    { name: "log_normal", par: "prior", classes: ["NormalInverseGamma", "NormalGamma"], out: ["NormalInverseGamma", "NormalGamma"] },
    upd("normal_normal_inverse_gamma", "NormalInverseGamma"),
    upd("linear_regression", "NormalInverseGamma"), upd("uniform_pareto", "Pareto"),
    upd("gamma", "GammaProportional"), upd("gamma_known_rate", "GammaKnownRateProportional"),
    upd("beta", "BetaProportional"), upd("von_mises_known_concentration", "VonMisesKnownConcentration"),
    upd("von_mises_known_direction", "VonMisesKnownDirectionProportional"),
    upd("multivariate_normal_known_covariance", "MultivariateNormal"),
    upd("multivariate_normal_known_precision", "MultivariateNormal"),
    upd("multivariate_normal_known_mean", "InverseWishart"), upd("multivariate_normal", "NormalInverseWishart"),
    upd("weibull_inverse_gamma_known_shape", "InverseGamma"),
    pre("binomial_beta_predictive", "Beta", "BetaBinomial"), pre("bernoulli_beta_predictive", "Beta", "BetaBinomial"),
    pre("negative_binomial_beta_predictive", "Beta", "BetaNegativeBinomial"),
    pre("geometric_beta_predictive", "Beta", "BetaGeometric"),
    pre("categorical_dirichlet_predictive", "Dirichlet", "DirichletMultinomial"),
    pre("multinomial_dirichlet_predictive", "Dirichlet", "DirichletMultinomial"),
    pre("poisson_gamma_predictive", "Gamma", "NegativeBinomial"), pre("exponential_gamma_predictive", "Gamma", "Lomax"),
    pre("gamma_known_shape_predictive", "Gamma", "CompoundGamma"),
    pre("normal_known_variance_predictive", "Normal", "Normal"), pre("normal_known_precision_predictive", "Normal", "Normal"),
    { name: "normal_known_mean_predictive", par: "distribution", classes: ["InverseGamma", "ScaledInverseChiSquared"],
      out: ["StudentT", "StudentT"] },
    { name: "normal_predictive", par: "distribution", classes: ["NormalInverseGamma", "NormalGamma"], out: ["StudentT", "StudentT"] },
    pre("normal_normal_inverse_gamma_predictive", "NormalInverseGamma", "StudentT"),
    pre("linear_regression_predictive", "NormalInverseGamma", "MultivariateStudentT"),
    pre("multivariate_normal_known_covariance_predictive", "MultivariateNormal", "MultivariateNormal"),
    pre("multivariate_normal_known_precision_predictive", "MultivariateNormal", "MultivariateNormal"),
    pre("multivariate_normal_predictive", "NormalInverseWishart", "MultivariateStudentT")
  ]

  pure val CLASSES: List[str] = ["Beta", "BetaBinomial", "BetaGeometric", "BetaNegativeBinomial", "BetaProportional", "Binomial",
    "CompoundGamma", "Dirichlet", "DirichletMultinomial", "Exponential", "Gamma", "GammaKnownRateProportional",
    "GammaProportional", "Geometric", "Hypergeometric", "InverseGamma", "InverseWishart", "LogNormal", "Lomax",
    "Multinomial", "MultivariateNormal", "MultivariateStudentT", "NegativeBinomial", "Normal", "NormalGamma",
    "NormalInverseGamma", "NormalInverseWishart", "NormalWishart", "Pareto", "Poisson", "ScaledInverseChiSquared",
    "StudentT", "Uniform", "VonMises", "VonMisesKnownConcentration", "VonMisesKnownDirectionProportional", "Weibull", "Wishart"]

  /// Something to pass: its own class and that class's ancestors, nearest first.
  type Thing = { kind: str, cls: str, ancestors: List[str] }
  pure def instance(c: str): Thing = { kind: "instance", cls: c, ancestors: [] }
  /// A class the user derived from a library class, and one derived from that.
  pure def child(c: str): Thing = { kind: "child", cls: "Child", ancestors: [c] }
  pure def grandchild(c: str): Thing = { kind: "grandchild", cls: "Grandchild", ancestors: ["Child", c] }
  /// A class of somebody else's that merely carries the same name and fields.
  pure def namesake(c: str): Thing = { kind: "namesake", cls: "Namesake", ancestors: [] }
  pure def other(k: str, c: str): Thing = { kind: k, cls: c, ancestors: [] }

  pure val JUNK: List[Thing] = [
    other("missing", "NoneType"), other("none", "NoneType"), other("int", "int"), other("float", "float"), other("str", "str"),
    other("dict", "dict"), other("tuple", "tuple"), other("array", "ndarray"), other("scipy", "rv_continuous_frozen"),
    other("lambda", "function"), other("zero", "int"), other("empty", "list"), other("stacked", "VectorizedDist")]

  /// Every thing, addressed by a number.
  pure def thing(i: int): Thing = {
    val n = CLASSES.length()
    if (i < n) instance(CLASSES[i])
    else if (i < 2 * n) child(CLASSES[i - n])
    else if (i < 3 * n) grandchild(CLASSES[i - 2 * n])
    else if (i < 4 * n) namesake(CLASSES[i - 3 * n])
    else if (i < 5 * n) { kind: "class itself", cls: "type", ancestors: [] }
    else JUNK[i - 5 * n]
  }
  pure def base(i: int): str = if (i < 5 * CLASSES.length()) CLASSES[i % CLASSES.length()] else ""
  pure val NTHINGS: int = 5 * CLASSES.length() + JUNK.length()
  pure val NPAIRS: int = NTHINGS * FNS.length()

  pure def line(t: Thing): List[str] = [t.cls].concat(t.ancestors)
  /// The position of the documented class the thing belongs to; -1 when there is none.
  pure def accepts(f: Fn, t: Thing): int =
    f.classes.indices().fold(-1, (acc, j) => if (line(t).indices().exists(i => line(t)[i] == f.classes[j])) j else acc)

  // ------------------------------------------------ the two precisions
  /// given: "" (not passed), "none", or the kind of value
  type Precision = { delta: str, nu: str }
  pure val GIVEN: List[str] = ["", "none", "zero", "number", "array", "zeros"]
  pure def isGiven(s: str): bool = not(Set("", "none").contains(s))
  pure def makes(p: Precision): bool = isGiven(p.delta) != isGiven(p.nu)

  // ------------------------------------------------ behaviour
  type Op = { act: str, fn: str, par: str, thing: int, kind: str, base: str, ok: bool, out: str, expected: List[str],
              delta: str, nu: str, way: str, obj: int }
  pure val noOp: Op = { act: "start", fn: "", par: "", thing: 0, kind: "", base: "", ok: true, out: "", expected: [], delta: "", nu: "", way: "", obj: 0 }

  var step_no: int
  /// Normal-inverse-gamma objects made so far: which precisions each holds now.
  var objs: List[Precision]
  var op: Op

  action init = all { step_no' = 0, objs' = [], op' = noOp }

  /// Pair number i of the table; the multiplier spreads functions and things over the history.
  pure def offered(i: int): Op = {
    val j = (i * 7919) % NPAIRS
    val f = FNS[j % FNS.length()]
    val t = j / FNS.length()
    val a = accepts(f, thing(t))
    noOp.with("act", "offer").with("fn", f.name).with("par", f.par).with("thing", t).with("kind", thing(t).kind)
      .with("base", base(t)).with("ok", a >= 0).with("out", if (a >= 0) f.out[a] else "").with("expected", f.classes)
  }

  action offer = {
    val i = step_no * PARTS + PART
    all {
      i < NPAIRS,
      step_no' = step_no + 1,
      objs' = objs,
      op' = offered(i)
    }
  }

  pure val WAYS: List[str] = ["keyword", "positional", "from_inverse_gamma", "child"]
  action construct = {
    nondet w = 0.to(2^48).oneOf()
    val p: Precision = { delta: pick(w, 1, GIVEN), nu: pick(w, 2, GIVEN) }
    all {
      step_no' = step_no,
      objs' = if (makes(p)) objs.append(p) else objs,
      op' = noOp.with("act", "construct").with("delta", p.delta).with("nu", p.nu).with("ok", makes(p)).with("way", pick(w, 3, WAYS))
    }
  }
  action reassign = {
    nondet w = 0.to(2^48).oneOf()
    val i = rnd(w, 1, objs.length())
    val p: Precision = { delta: pick(w, 2, ["none", "number", "array"]), nu: pick(w, 3, ["none", "number", "array"]) }
    all {
      objs.length() > 0,
      step_no' = step_no,
      objs' = objs.replaceAt(i, p),
      op' = noOp.with("act", "reassign").with("obj", i).with("delta", p.delta).with("nu", p.nu)
    }
  }
  /// The univariate update asks for the univariate precision.
  action univariate = {
    nondet w = 0.to(2^48).oneOf()
    val i = rnd(w, 1, objs.length())
    all {
      objs.length() > 0,
      step_no' = step_no,
      objs' = objs,
      op' = noOp.with("act", "univariate").with("obj", i).with("fn", pick(w, 2, ["normal", "log_normal", "normal_normal_inverse_gamma"]))
        .with("ok", isGiven(objs[i].nu)).with("nu", objs[i].nu).with("delta", objs[i].delta)
    }
  }
  action step = any {
    all { MODE == "table", offer },
    all { MODE == "precisions", any { construct, univariate, reassign } }
  }

  // ------------------------------------------------ the specification's own invariants
  /// Acceptance is membership of a documented class, closed under derivation, and
  /// every function accepts every class it documents; one precision, never both.
  val derived = Set("instance", "child", "grandchild").contains(op.kind)
  val documented = op.expected.indices().exists(j => op.expected[j] == op.base)
  val inv = and {
    op.act == "offer" implies (op.ok iff (derived and documented)),
    op.act == "construct" implies (op.ok iff (isGiven(op.delta) iff not(isGiven(op.nu)))),
    op.act == "univariate" implies (op.ok iff isGiven(objs[op.obj].nu))
  }
}
