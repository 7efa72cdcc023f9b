// -*- mode: quint -*-
/// The conjugate models: how single observations enter the likelihood (first
/// principles), the sufficient statistics a caller passes, the hyperparameter
/// update a model function is documented to perform, and the marginal
/// likelihood a predictive distribution must reproduce.
module models {
  import rat.* from "./rat"
  import families.* from "./families"

  // ---------------------------------------------------------------- signature
  /// Families accepted as prior, in the order of the documentation.
  pure def priorClasses(m: str): List[str] =
    if (Set("binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta").contains(m)) ["Beta"]
    else if (m == "hypergeometric_beta_binomial") ["BetaBinomial"]
    else if (Set("categorical_dirichlet", "multinomial_dirichlet").contains(m)) ["Dirichlet"]
    else if (Set("poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate",
                 "pareto_gamma").contains(m)) ["Gamma"]
    else if (Set("normal_known_variance", "normal_known_precision").contains(m)) ["Normal"]
    else if (m == "normal_known_mean") ["InverseGamma", "ScaledInverseChiSquared"]
    else if (Set("normal", "log_normal").contains(m)) ["NormalInverseGamma", "NormalGamma"]
    else if (m == "normal_normal_inverse_gamma") ["NormalInverseGamma"]
    else if (m == "uniform_pareto") ["Pareto"]
    else if (m == "gamma") ["GammaProportional"]
    else if (m == "gamma_known_rate") ["GammaKnownRateProportional"]
    else if (m == "beta") ["BetaProportional"]
    else if (m == "von_mises_known_concentration") ["VonMisesKnownConcentration"]
    else if (m == "von_mises_known_direction") ["VonMisesKnownDirectionProportional"]
    else if (m == "weibull_inverse_gamma_known_shape") ["InverseGamma"]
    else []

  /// A field to be generated: its name and the domain of its values.
  type Field = { name: str, dom: str }
  pure def fd(n: str, d: str): Field = { name: n, dom: d }

  pure def paramFields(cls: str): List[Field] =
    if (cls == "Beta") [fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "BetaBinomial") [fd("n", "popsize"), fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "Gamma" or cls == "InverseGamma") [fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "Normal") [fd("mu", "real"), fd("sigma2", "square")]
    else if (cls == "ScaledInverseChiSquared") [fd("nu", "pos"), fd("sigma2", "pos")]
    else if (cls == "NormalInverseGamma") [fd("mu", "real"), fd("nu", "pos"), fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "NormalGamma") [fd("mu", "real"), fd("lam", "pos"), fd("alpha", "pos"), fd("beta", "pos")]
    else if (cls == "Pareto") [fd("x_m", "pos"), fd("alpha", "pos")]
    else if (cls == "GammaProportional") [fd("p", "pos"), fd("q", "pos"), fd("r", "pos"), fd("s", "pos")]
    else if (cls == "GammaKnownRateProportional") [fd("a", "pos"), fd("b", "pos"), fd("c", "pos")]
    else if (cls == "BetaProportional") [fd("p", "unit"), fd("q", "unit"), fd("k", "pos")]
    else if (cls == "VonMisesKnownConcentration") [fd("C", "res"), fd("S", "resn")]
    else if (cls == "VonMisesKnownDirectionProportional") [fd("c", "pos"), fd("r", "small")]
    else if (cls == "Dirichlet") [fd("a0", "pos"), fd("a1", "pos"), fd("a2", "pos"), fd("a3", "pos")]
    else []

  /// Known constants passed with every update.
  pure def knownFields(m: str): List[Field] =
    if (m == "negative_binomial_beta") [fd("r", "count1")]
    else if (m == "gamma_known_shape" or m == "inverse_gamma_known_rate") [fd("alpha", "pos")]
    else if (m == "normal_known_variance") [fd("var", "pos")]
    else if (m == "normal_known_precision") [fd("precision", "pos")]
    else if (m == "normal_known_mean") [fd("mu", "real")]
    else if (m == "pareto_gamma") [fd("exp:x_m", "real1")]
    else if (m == "gamma_known_rate") [fd("beta", "pos")]
    else if (m == "von_mises_known_concentration") [fd("kappa", "pos")]
    else []

  /// One observation. Fields of domain "cnt…" belong to the design (how much
  /// was observed); the others are outcomes. "m" is how often it was seen.
  pure def obsFields(m: str): List[Field] =
    if (m == "binomial_beta") [fd("n", "cnt_trials"), fd("x", "frac")]
    else if (m == "hypergeometric_beta_binomial") [fd("n", "cnt_draws"), fd("x", "frac")]
    else if (m == "bernoulli_beta") [fd("x", "bit")]
    else if (m == "negative_binomial_beta") [fd("x", "count0")]
    else if (m == "geometric_beta") [fd("x", "count0")]
    else if (m == "categorical_dirichlet") [fd("cat", "cat")]
    else if (m == "multinomial_dirichlet") [fd("x0", "count0"), fd("x1", "count0"), fd("x2", "count0"), fd("x3", "count0")]
    else if (m == "poisson_gamma") [fd("t", "cnt_expo"), fd("x", "count0")]
    else if (Set("exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "uniform_pareto",
                 "weibull_inverse_gamma_known_shape").contains(m)) [fd("x", "pos")]
    else if (Set("gamma", "gamma_known_rate").contains(m)) [fd("x", "modest")]
    else if (m == "beta") [fd("x", "unit")]
    else if (m == "pareto_gamma") [fd("lnx", "pos")]
    else if (m == "von_mises_known_concentration") [fd("dir", "dir")]
    else if (m == "von_mises_known_direction") [fd("x", "cosine")]
    else [fd("x", "real")]

  /// Largest multiplicity class: 0 = one each, 1 = small, 2 = may be huge.
  pure def multiplicity(m: str): int =
    if (Set("bernoulli_beta").contains(m)) 0
    else if (Set("gamma", "gamma_known_rate", "beta", "normal", "log_normal", "normal_normal_inverse_gamma",
                 "normal_known_mean").contains(m)) 1
    else 2

  /// Directions with rational cosine and sine.
  pure val dirs: List[Row] = [
    Map("c" -> ri(1), "s" -> ri(0)), Map("c" -> ri(0), "s" -> ri(1)), Map("c" -> ri(-1), "s" -> ri(0)),
    Map("c" -> ri(0), "s" -> ri(-1)), Map("c" -> mk(3, 5), "s" -> mk(4, 5)), Map("c" -> mk(-4, 5), "s" -> mk(3, 5)),
    Map("c" -> mk(5, 13), "s" -> mk(-12, 13)), Map("c" -> mk(-15, 17), "s" -> mk(-8, 17)),
    Map("c" -> mk(24, 25), "s" -> mk(7, 25)), Map("c" -> mk(-20, 29), "s" -> mk(21, 29)),
    Map("c" -> mk(-3, 5), "s" -> mk(-4, 5)), Map("c" -> mk(12, 37), "s" -> mk(35, 37))
  ]

  // ---------------------------------------------------------------- statistics
  type Obs = List[Row]
  pure def wsum(o: Obs, f: (Row) => Rat): Rat =
    o.foldl(r0, (s, x) => radd(s, rmul(x.get("m"), f(x))))
  pure def wprod(o: Obs, f: (Row) => Rat): Rat =
    o.foldl(r1, (s, x) => rmul(s, rpow(f(x), x.get("m").n)))
  pure def cnt(o: Obs): Rat = o.foldl(r0, (s, x) => radd(s, x.get("m")))

  /// Names of the statistics that describe the design only.
  pure def isDesign(name: str): bool = Set("n").contains(name)

  /// The sufficient statistics, named as the arguments of the model function.
  pure def statistics(m: str, o: Obs): Row =
    if (m == "binomial_beta")
      Map("n" -> wsum(o, x => x.get("n")), "x" -> wsum(o, x => x.get("x")))
    else if (m == "hypergeometric_beta_binomial")
      Map("n" -> wsum(o, x => x.get("n")), "x_total" -> wsum(o, x => x.get("x")))
    else if (m == "bernoulli_beta") Map("x" -> wsum(o, x => x.get("x")))
    else if (m == "negative_binomial_beta") Map("n" -> cnt(o), "x" -> wsum(o, x => x.get("x")))
    else if (m == "geometric_beta") Map("n" -> cnt(o), "x_total" -> wsum(o, x => x.get("x")))
    else if (m == "categorical_dirichlet")
      Set(0, 1, 2, 3).fold(Map(), (acc, i) =>
        acc.put(["x0", "x1", "x2", "x3"][i], wsum(o, x => if (x.get("cat").n == i) r1 else r0)))
    else if (m == "multinomial_dirichlet")
      Set("x0", "x1", "x2", "x3").mapBy(k => wsum(o, x => x.get(k)))
    else if (m == "poisson_gamma")
      Map("x_total" -> wsum(o, x => x.get("x")), "n" -> wsum(o, x => x.get("t")))
    else if (m == "exponential_gamma" or m == "gamma_known_shape")
      Map("x_total" -> wsum(o, x => x.get("x")), "n" -> cnt(o))
    else if (m == "inverse_gamma_known_rate")
      Map("reciprocal_x_total" -> wsum(o, x => rinv(x.get("x"))), "n" -> cnt(o))
    else if (m == "normal_known_variance" or m == "normal_known_precision")
      Map("x_total" -> wsum(o, x => x.get("x")), "n" -> cnt(o))
    else if (Set("normal_known_mean", "normal", "normal_normal_inverse_gamma").contains(m))
      Map("x_total" -> wsum(o, x => x.get("x")), "x2_total" -> wsum(o, x => rsq(x.get("x"))), "n" -> cnt(o))
    else if (m == "log_normal")
      Map("ln_x_total" -> wsum(o, x => x.get("x")), "ln_x2_total" -> wsum(o, x => rsq(x.get("x"))), "n" -> cnt(o))
    else if (m == "uniform_pareto")
      Map("x_max" -> o.foldl(r0, (s, x) => rmax(s, x.get("x"))), "n" -> cnt(o))
    else if (m == "pareto_gamma") Map("ln_x_total" -> wsum(o, x => x.get("lnx")), "n" -> cnt(o))
    else if (m == "gamma")
      Map("x_total" -> wsum(o, x => x.get("x")), "x_prod" -> wprod(o, x => x.get("x")), "n" -> cnt(o))
    else if (m == "gamma_known_rate") Map("x_prod" -> wprod(o, x => x.get("x")), "n" -> cnt(o))
    else if (m == "beta")
      Map("x_prod" -> wprod(o, x => x.get("x")), "one_minus_x_prod" -> wprod(o, x => rsub(r1, x.get("x"))), "n" -> cnt(o))
    else if (m == "von_mises_known_concentration")
      Map("cos_total" -> wsum(o, x => x.get("c")), "sin_total" -> wsum(o, x => x.get("s")), "n" -> cnt(o))
    else if (m == "von_mises_known_direction")
      Map("centered_cos_total" -> wsum(o, x => x.get("x")), "n" -> cnt(o))
    else if (m == "weibull_inverse_gamma_known_shape")
      Map("x_beta_total" -> wsum(o, x => x.get("x")), "n" -> cnt(o))
    else Map()

  // ---------------------------------------------------------------- likelihood
  /// The likelihood of ONE observation as a kernel in the unknown: what Bayes'
  /// rule multiplies into the belief. k: known constants (and "one_start").
  pure def likelihood(m: str, cls: str, k: Row, o: Row): Row =
    if (m == "binomial_beta" or m == "hypergeometric_beta_binomial")
      Map("ln_p" -> o.get("x"), "ln_1p" -> rsub(o.get("n"), o.get("x")))
    else if (m == "bernoulli_beta") Map("ln_p" -> o.get("x"), "ln_1p" -> rsub(r1, o.get("x")))
    else if (m == "negative_binomial_beta") Map("ln_p" -> k.get("r"), "ln_1p" -> o.get("x"))
    else if (m == "geometric_beta")
      Map("ln_p" -> r1, "ln_1p" -> if (k.get("one_start").n == 1) rsub(o.get("x"), r1) else o.get("x"))
    else if (m == "categorical_dirichlet")
      Set(0, 1, 2, 3).fold(Map(), (acc, i) =>
        acc.put(["a0", "a1", "a2", "a3"][i], if (o.get("cat").n == i) r1 else r0))
    else if (m == "multinomial_dirichlet")
      Map("a0" -> o.get("x0"), "a1" -> o.get("x1"), "a2" -> o.get("x2"), "a3" -> o.get("x3"))
    else if (m == "poisson_gamma") Map("ln_t" -> o.get("x"), "t" -> rneg(o.get("t")))
    else if (m == "exponential_gamma") Map("ln_t" -> r1, "t" -> rneg(o.get("x")))
    else if (m == "gamma_known_shape") Map("ln_t" -> k.get("alpha"), "t" -> rneg(o.get("x")))
    else if (m == "inverse_gamma_known_rate") Map("ln_t" -> k.get("alpha"), "t" -> rneg(rinv(o.get("x"))))
    else if (m == "pareto_gamma") Map("ln_t" -> r1, "t" -> rsub(k.get("exp:x_m"), o.get("lnx")))
    else if (m == "normal_known_variance" or m == "normal_known_precision") {
      val w = if (m == "normal_known_variance") rinv(k.get("var")) else k.get("precision")
      Map("m" -> rmul(w, o.get("x")), "m2" -> rneg(rmul(half, w)))
    }
    else if (m == "normal_known_mean")
      Map("ln_v" -> mk(-1, 2), "iv" -> rneg(rmul(half, rsq(rsub(o.get("x"), k.get("mu"))))))
    else if (Set("normal", "normal_normal_inverse_gamma", "log_normal").contains(m)) {
      val x = o.get("x")
      if (cls == "NormalGamma")
        Map("ln_t" -> half, "t" -> rneg(rmul(half, rsq(x))), "m_t" -> x, "m2_t" -> mk(-1, 2))
      else
        Map("ln_v" -> mk(-1, 2), "iv" -> rneg(rmul(half, rsq(x))), "m_iv" -> x, "m2_iv" -> mk(-1, 2))
    }
    else if (m == "uniform_pareto") Map("ln_t" -> rm1, "max_t" -> o.get("x"))
    else if (m == "gamma")
      Map("mul_a" -> o.get("x"), "b" -> rneg(o.get("x")), "gam" -> rm1, "a_ln_b" -> r1)
    else if (m == "gamma_known_rate") Map("mul_a" -> o.get("x"), "gam" -> rm1, "a_ln_b" -> r1)
    else if (m == "beta") Map("mul_a" -> o.get("x"), "mul_b" -> rsub(r1, o.get("x")), "invbeta" -> r1)
    else if (m == "von_mises_known_concentration")
      Map("cos" -> rmul(k.get("kappa"), o.get("c")), "sin" -> rmul(k.get("kappa"), o.get("s")))
    else if (m == "von_mises_known_direction") Map("k" -> o.get("x"), "lni0" -> rm1)
    else if (m == "weibull_inverse_gamma_known_shape") Map("ln_v" -> rm1, "iv" -> rneg(o.get("x")))
    else Map()

  /// m independent copies of the same observation.
  pure def krepeat(a: Row, m: Rat): Row =
    a.keys().mapBy(k =>
      if (isMax(k)) a.get(k)
      else if (isMul(k)) rpow(a.get(k), m.n)
      else rmul(m, a.get(k)))

  /// Bayes' rule, one observation after the other.
  pure def learnAll(m: str, cls: str, k: Row, start: Row, o: Obs): Row =
    o.foldl(start, (acc, x) => kcombine(acc, krepeat(likelihood(m, cls, k, x), x.get("m"))))

  // ---------------------------------------------------------------- update rule
  /// The documented posterior hyperparameters. b: belief, a: all arguments.
  pure def update(m: str, cls: str, b: Row, a: Row): Row =
    if (m == "binomial_beta" or m == "hypergeometric_beta_binomial" or m == "bernoulli_beta") {
      val x = if (m == "hypergeometric_beta_binomial") a.get("x_total") else a.get("x")
      val n = if (m == "bernoulli_beta") r1 else a.get("n")
      b.put("alpha", radd(b.get("alpha"), x)).put("beta", radd(b.get("beta"), rsub(n, x)))
    }
    else if (m == "negative_binomial_beta")
      b.put("alpha", radd(b.get("alpha"), rmul(a.get("r"), a.get("n")))).put("beta", radd(b.get("beta"), a.get("x")))
    else if (m == "geometric_beta")
      b.put("alpha", radd(b.get("alpha"), a.get("n")))
       .put("beta", radd(b.get("beta"), if (a.get("one_start").n == 1) rsub(a.get("x_total"), a.get("n")) else a.get("x_total")))
    else if (m == "categorical_dirichlet" or m == "multinomial_dirichlet")
      Map("a0" -> radd(b.get("a0"), a.get("x0")), "a1" -> radd(b.get("a1"), a.get("x1")),
          "a2" -> radd(b.get("a2"), a.get("x2")), "a3" -> radd(b.get("a3"), a.get("x3")))
    else if (m == "poisson_gamma")
      Map("alpha" -> radd(b.get("alpha"), a.get("x_total")), "beta" -> radd(b.get("beta"), a.get("n")))
    else if (m == "exponential_gamma")
      Map("alpha" -> radd(b.get("alpha"), a.get("n")), "beta" -> radd(b.get("beta"), a.get("x_total")))
    else if (m == "gamma_known_shape")
      Map("alpha" -> radd(b.get("alpha"), rmul(a.get("n"), a.get("alpha"))), "beta" -> radd(b.get("beta"), a.get("x_total")))
    else if (m == "inverse_gamma_known_rate")
      Map("alpha" -> radd(b.get("alpha"), rmul(a.get("n"), a.get("alpha"))),
          "beta" -> radd(b.get("beta"), a.get("reciprocal_x_total")))
    else if (m == "pareto_gamma")
      Map("alpha" -> radd(b.get("alpha"), a.get("n")),
          "beta" -> radd(b.get("beta"), rsub(a.get("ln_x_total"), rmul(a.get("n"), a.get("exp:x_m")))))
    else if (m == "normal_known_variance" or m == "normal_known_precision") {
      val w = if (m == "normal_known_variance") rinv(a.get("var")) else a.get("precision")
      val prec = radd(rinv(b.get("sigma2")), rmul(a.get("n"), w))
      Map("mu" -> rdiv(radd(rdiv(b.get("mu"), b.get("sigma2")), rmul(w, a.get("x_total"))), prec),
          "sigma2" -> rinv(prec))
    }
    else if (m == "normal_known_mean") {
      val ss = radd(rsub(a.get("x2_total"), rmul(rmul(r2, a.get("mu")), a.get("x_total"))),
                    rmul(a.get("n"), rsq(a.get("mu"))))
      if (cls == "InverseGamma")
        Map("alpha" -> radd(b.get("alpha"), rmul(half, a.get("n"))), "beta" -> radd(b.get("beta"), rmul(half, ss)))
      else {
        val nu = radd(b.get("nu"), a.get("n"))
        Map("nu" -> nu, "sigma2" -> rdiv(radd(rmul(b.get("nu"), b.get("sigma2")), ss), nu))
      }
    }
    else if (Set("normal", "normal_normal_inverse_gamma", "log_normal").contains(m)) {
      val sx = if (m == "log_normal") a.get("ln_x_total") else a.get("x_total")
      val sxx = if (m == "log_normal") a.get("ln_x2_total") else a.get("x2_total")
      val key = if (cls == "NormalGamma") "lam" else "nu"
      val nu0 = b.get(key)
      val nu = radd(nu0, a.get("n"))
      val mu = rdiv(radd(rmul(nu0, b.get("mu")), sx), nu)
      val be = radd(b.get("beta"), rmul(half, rsub(radd(rmul(nu0, rsq(b.get("mu"))), sxx), rmul(nu, rsq(mu)))))
      Map("mu" -> mu, "alpha" -> radd(b.get("alpha"), rmul(half, a.get("n"))), "beta" -> be).put(key, nu)
    }
    else if (m == "uniform_pareto")
      Map("x_m" -> rmax(b.get("x_m"), a.get("x_max")), "alpha" -> radd(b.get("alpha"), a.get("n")))
    else if (m == "gamma")
      Map("p" -> rmul(b.get("p"), a.get("x_prod")), "q" -> radd(b.get("q"), a.get("x_total")),
          "r" -> radd(b.get("r"), a.get("n")), "s" -> radd(b.get("s"), a.get("n")))
    else if (m == "gamma_known_rate")
      Map("a" -> rmul(b.get("a"), a.get("x_prod")), "b" -> radd(b.get("b"), a.get("n")), "c" -> radd(b.get("c"), a.get("n")))
    else if (m == "beta")
      Map("p" -> rmul(b.get("p"), a.get("x_prod")), "q" -> rmul(b.get("q"), a.get("one_minus_x_prod")),
          "k" -> radd(b.get("k"), a.get("n")))
    else if (m == "von_mises_known_concentration")
      Map("C" -> radd(b.get("C"), rmul(a.get("kappa"), a.get("cos_total"))),
          "S" -> radd(b.get("S"), rmul(a.get("kappa"), a.get("sin_total"))))
    else if (m == "von_mises_known_direction")
      Map("c" -> radd(b.get("c"), a.get("n")), "r" -> radd(b.get("r"), a.get("centered_cos_total")))
    else if (m == "weibull_inverse_gamma_known_shape")
      Map("alpha" -> radd(b.get("alpha"), a.get("n")), "beta" -> radd(b.get("beta"), a.get("x_beta_total")))
    else Map()

  /// Size of the terms that are added up in each hyperparameter: the
  /// conformance check allows rounding relative to this.
  pure def magnitude(m: str, cls: str, b: Row, a: Row): Rat = {
    val sum = a.keys().fold(b.keys().fold(r1, (s, k) => radd(s, rabs(b.get(k)))), (s, k) => radd(s, rabs(a.get(k))))
    if (m == "von_mises_known_concentration")
      radd(sum, rmul(a.get("kappa"), radd(rabs(a.get("cos_total")), rabs(a.get("sin_total")))))
    else sum
  }

  // ---------------------------------------------------------------- predictives
  /// Which model's marginal likelihood a predictive function returns.
  pure def predictiveModel(f: str): str =
    if (f == "binomial_beta_predictive") "binomial_beta"
    else if (f == "bernoulli_beta_predictive") "bernoulli_beta"
    else if (f == "negative_binomial_beta_predictive") "negative_binomial_beta"
    else if (f == "geometric_beta_predictive") "geometric_beta"
    else if (f == "categorical_dirichlet_predictive") "categorical_dirichlet"
    else if (f == "multinomial_dirichlet_predictive") "multinomial_dirichlet"
    else if (f == "poisson_gamma_predictive") "poisson_gamma"
    else if (f == "exponential_gamma_predictive") "exponential_gamma"
    else if (f == "gamma_known_shape_predictive") "gamma_known_shape"
    else if (f == "normal_known_variance_predictive") "normal_known_variance"
    else if (f == "normal_known_precision_predictive") "normal_known_precision"
    else if (f == "normal_known_mean_predictive") "normal_known_mean"
    else if (f == "normal_predictive") "normal"
    else if (f == "normal_normal_inverse_gamma_predictive") "normal_normal_inverse_gamma"
    else ""

  pure def predictives(m: str, cls: str): List[str] =
    if (m == "binomial_beta") ["binomial_beta_predictive"]
    else if (m == "bernoulli_beta") ["bernoulli_beta_predictive"]
    else if (m == "negative_binomial_beta") ["negative_binomial_beta_predictive"]
    else if (m == "geometric_beta") ["geometric_beta_predictive"]
    else if (m == "categorical_dirichlet") ["categorical_dirichlet_predictive"]
    else if (m == "multinomial_dirichlet") ["multinomial_dirichlet_predictive"]
    else if (m == "poisson_gamma") ["poisson_gamma_predictive"]
    else if (m == "exponential_gamma") ["exponential_gamma_predictive"]
    else if (m == "gamma_known_shape") ["gamma_known_shape_predictive"]
    else if (m == "normal_known_variance") ["normal_known_variance_predictive"]
    else if (m == "normal_known_precision") ["normal_known_precision_predictive"]
    else if (m == "normal_known_mean") ["normal_known_mean_predictive"]
    else if (m == "normal") (if (cls == "NormalGamma") ["normal_predictive"] else ["normal_predictive", "normal_normal_inverse_gamma_predictive"])
    else []

  pure def predictiveClass(f: str): str =
    if (f == "binomial_beta_predictive" or f == "bernoulli_beta_predictive") "BetaBinomial"
    else if (f == "negative_binomial_beta_predictive") "BetaNegativeBinomial"
    else if (f == "geometric_beta_predictive") "BetaGeometric"
    else if (f == "categorical_dirichlet_predictive" or f == "multinomial_dirichlet_predictive") "DirichletMultinomial"
    else if (f == "poisson_gamma_predictive") "NegativeBinomial"
    else if (f == "exponential_gamma_predictive") "Lomax"
    else if (f == "gamma_known_shape_predictive") "CompoundGamma"
    else if (f == "normal_known_variance_predictive" or f == "normal_known_precision_predictive") "Normal"
    else "StudentT"

  /// Arguments of a predictive function besides the distribution.
  pure def predFields(f: str): List[Field] =
    if (f == "binomial_beta_predictive") [fd("n", "trials")]
    else if (f == "negative_binomial_beta_predictive") [fd("r", "count1")]
    else if (f == "categorical_dirichlet_predictive" or f == "multinomial_dirichlet_predictive") [fd("n", "trials_s")]
    else if (f == "poisson_gamma_predictive") [fd("n", "expo")]
    else if (f == "gamma_known_shape_predictive") [fd("alpha", "pos")]
    else if (f == "normal_known_variance_predictive") [fd("var", "pos")]
    else if (f == "normal_known_precision_predictive") [fd("precision", "pos")]
    else if (f == "normal_known_mean_predictive") [fd("mu", "real")]
    else []

  /// The documented hyperparameters of the predictive distribution.
  pure def predictiveRow(f: str, cls: str, b: Row, a: Row): Row =
    if (f == "binomial_beta_predictive") Map("n" -> a.get("n"), "alpha" -> b.get("alpha"), "beta" -> b.get("beta"))
    else if (f == "bernoulli_beta_predictive") Map("n" -> r1, "alpha" -> b.get("alpha"), "beta" -> b.get("beta"))
    else if (f == "negative_binomial_beta_predictive") Map("n" -> a.get("r"), "alpha" -> b.get("alpha"), "beta" -> b.get("beta"))
    else if (f == "geometric_beta_predictive")
      Map("alpha" -> b.get("alpha"), "beta" -> b.get("beta"), "one_start" -> a.get("one_start"))
    else if (f == "poisson_gamma_predictive")
      Map("n" -> b.get("alpha"), "p" -> rdiv(b.get("beta"), radd(b.get("beta"), a.get("n"))))
    else if (f == "exponential_gamma_predictive") Map("alpha" -> b.get("alpha"), "lam" -> b.get("beta"))
    else if (f == "gamma_known_shape_predictive")
      Map("alpha" -> a.get("alpha"), "beta" -> b.get("alpha"), "lam" -> b.get("beta"))
    else if (f == "normal_known_variance_predictive") Map("mu" -> b.get("mu"), "sigma2" -> radd(b.get("sigma2"), a.get("var")))
    else if (f == "normal_known_precision_predictive")
      Map("mu" -> b.get("mu"), "sigma2" -> radd(b.get("sigma2"), rinv(a.get("precision"))))
    else if (f == "normal_known_mean_predictive") {
      if (cls == "InverseGamma")
        Map("mu" -> a.get("mu"), "sigma2" -> rdiv(b.get("beta"), b.get("alpha")), "nu" -> rmul(r2, b.get("alpha")))
      else Map("mu" -> a.get("mu"), "sigma2" -> b.get("sigma2"), "nu" -> b.get("nu"))
    }
    else if (f == "normal_predictive" or f == "normal_normal_inverse_gamma_predictive") {
      val nu = if (cls == "NormalGamma") b.get("lam") else b.get("nu")
      Map("mu" -> b.get("mu"), "sigma2" -> rdiv(rmul(b.get("beta"), radd(nu, r1)), rmul(nu, b.get("alpha"))),
          "nu" -> rmul(r2, b.get("alpha")))
    }
    else Map()

  /// Turn an outcome of the predictive into an observation of the model.
  pure def asObservation(f: str, a: Row, y: Row): Row =
    if (f == "binomial_beta_predictive") y.put("n", a.get("n"))
    else if (f == "poisson_gamma_predictive") y.put("t", a.get("n"))
    else y

  /// The factor of the likelihood that does not involve the unknown.
  pure def carrier(f: str, a: Row, y: Row): LD =
    if (f == "binomial_beta_predictive") ldQ(ri(choose(a.get("n").n, y.get("x").n)))
    else if (f == "negative_binomial_beta_predictive")
      ldQ(ri(choose(a.get("r").n + y.get("x").n - 1, y.get("x").n)))
    else if (f == "categorical_dirichlet_predictive" or f == "multinomial_dirichlet_predictive")
      ldQ(mk(fact(a.get("n").n),
             fact(y.get("x0").n) * fact(y.get("x1").n) * fact(y.get("x2").n) * fact(y.get("x3").n)))
    else if (f == "poisson_gamma_predictive")
      { q: mk(1, fact(y.get("x").n)), e: r0, pw: [pw(a.get("n"), y.get("x"))], sp: [] }
    else if (f == "gamma_known_shape_predictive")
      { q: r1, e: r0, pw: [pw(y.get("x"), rsub(a.get("alpha"), r1))], sp: [lgam(a.get("alpha"), rm1)] }
    else if (f == "normal_known_variance_predictive" or f == "normal_known_precision_predictive") {
      val v = if (f == "normal_known_variance_predictive") a.get("var") else rinv(a.get("precision"))
      { q: r1, e: rneg(rdiv(rsq(y.get("x")), rmul(r2, v))), pw: [pw(v, mk(-1, 2))], sp: [two_pi(mk(-1, 2))] }
    }
    else if (Set("normal_known_mean_predictive", "normal_predictive",
                 "normal_normal_inverse_gamma_predictive").contains(f))
      { q: r1, e: r0, pw: [], sp: [two_pi(mk(-1, 2))] }
    else ldOne

  /// Can the outcome occur at all?
  pure def possible(f: str, a: Row, y: Row): bool =
    if (f == "binomial_beta_predictive") y.get("x").n >= 0 and rle(y.get("x"), a.get("n"))
    else if (f == "bernoulli_beta_predictive") y.get("x").n >= 0 and y.get("x").n <= 1
    else if (f == "geometric_beta_predictive") y.get("x").n >= a.get("one_start").n
    else if (f == "negative_binomial_beta_predictive" or f == "poisson_gamma_predictive") y.get("x").n >= 0
    else if (f == "exponential_gamma_predictive") y.get("x").n >= 0
    else if (f == "gamma_known_shape_predictive") y.get("x").n > 0
    else true

  /// The marginal likelihood of an outcome: the likelihood averaged over the belief.
  pure def evidence(f: str, cls: str, kern: Row, a: Row, y: Row): LD = {
    val m = predictiveModel(f)
    if (not(possible(f, a, y))) ldZero
    else {
      val lik = if (m == "categorical_dirichlet") likelihood("multinomial_dirichlet", cls, a, y)
                else likelihood(m, cls, a, asObservation(f, a, y))
      ldMul(carrier(f, a, y), ldDiv(kernelZ(cls, kcombine(kern, lik)), kernelZ(cls, kern)))
    }
  }

  // ---------------------------------------------------------------- likelihood classes
  /// The library's own class for the likelihood of each model.
  pure def likelihoodClass(m: str): str =
    if (m == "binomial_beta" or m == "bernoulli_beta") "Binomial"
    else if (m == "negative_binomial_beta") "NegativeBinomial"
    else if (m == "geometric_beta") "Geometric"
    else if (m == "categorical_dirichlet" or m == "multinomial_dirichlet") "Multinomial"
    else if (m == "poisson_gamma") "Poisson"
    else if (m == "exponential_gamma") "Exponential"
    else if (Set("gamma_known_shape", "gamma", "gamma_known_rate").contains(m)) "Gamma"
    else if (m == "inverse_gamma_known_rate") "InverseGamma"
    else if (Set("normal_known_variance", "normal_known_precision", "normal_known_mean", "normal",
                 "normal_normal_inverse_gamma").contains(m)) "Normal"
    else if (m == "log_normal") "LogNormal"
    else if (m == "uniform_pareto") "Uniform"
    else if (m == "pareto_gamma") "Pareto"
    else if (m == "beta") "Beta"
    else if (m == "von_mises_known_concentration" or m == "von_mises_known_direction") "VonMises"
    else if (m == "weibull_inverse_gamma_known_shape") "Weibull"
    else ""
}
