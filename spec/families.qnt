// -*- mode: quint -*-
/// The distribution families of the library: their documented parametrisation
/// (density or mass function, support, moments), written from first principles.
///
/// A density value is kept exactly, as a product of
///   q              a rational factor (0 outside the support)
///   exp(e)         an exponential with rational exponent
///   prod b^x       rational powers of rationals
///   prod F(a)^x    special factors with rational argument
/// so that nothing here is rounded; the conformance harness takes the logarithm.
module families {
  import rat.* from "./rat"

  type Pw = { b: Rat, x: Rat }
  type Sp = { f: str, a: Rat, x: Rat }
  type LD = { q: Rat, e: Rat, pw: List[Pw], sp: List[Sp] }

  pure val ldZero: LD = { q: r0, e: r0, pw: [], sp: [] }
  pure val ldOne: LD = { q: r1, e: r0, pw: [], sp: [] }
  pure def ldQ(q: Rat): LD = { q: q, e: r0, pw: [], sp: [] }
  pure def ldMul(a: LD, b: LD): LD =
    { q: rmul(a.q, b.q), e: radd(a.e, b.e), pw: a.pw.concat(b.pw), sp: a.sp.concat(b.sp) }
  pure def ldPow(a: LD, k: int): LD =
    { q: rpow(a.q, k), e: rmul(a.e, ri(k)),
      pw: a.pw.foldl([], (acc, p) => acc.append({ b: p.b, x: rmul(p.x, ri(k)) })),
      sp: a.sp.foldl([], (acc, p) => acc.append({ f: p.f, a: p.a, x: rmul(p.x, ri(k)) })) }
  pure def ldDiv(a: LD, b: LD): LD = ldMul(a, ldPow(b, -1))

  pure def pw(b: Rat, x: Rat): Pw = { b: b, x: x }
  pure def lgam(a: Rat, x: Rat): Sp = { f: "gammaln", a: a, x: x }
  pure def two_pi(x: Rat): Sp = { f: "ln2pi", a: r0, x: x }
  pure def one_pi(x: Rat): Sp = { f: "lnpi", a: r0, x: x }
  pure def lni0(a: Rat, x: Rat): Sp = { f: "lni0", a: a, x: x }
  pure val rm1: Rat = ri(-1)

  /// log B(a, b) to the power s
  pure def lbeta(a: Rat, b: Rat, s: Rat): List[Sp] =
    [lgam(a, s), lgam(b, s), lgam(radd(a, b), rneg(s))]

  /// Is the family discrete (mass function over the integers)?
  pure def isDiscrete(cls: str): bool =
    Set("Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial",
        "BetaNegativeBinomial", "Geometric", "BetaGeometric").contains(cls)

  pure def aKey(i: str): str = if (i == "0") "a0" else if (i == "1") "a1" else if (i == "2") "a2" else "a3"
  pure def pKey(i: str): str = if (i == "0") "p0" else if (i == "1") "p1" else if (i == "2") "p2" else "p3"
  pure def xKey(i: str): str = if (i == "0") "x0" else if (i == "1") "x1" else if (i == "2") "x2" else "x3"

  /// Exact density or mass of the family at a point.
  ///   pt "x"        the point itself
  ///   pt "lnx"      the logarithm of the point (LogNormal)
  ///   pt "c","s"    the direction of the point (VonMises)
  /// Normal, StudentT and LogNormal rows carry "sigma2", the square of sigma.
  pure def density(cls: str, p: Row, pt: Row): LD =
    if (cls == "Beta") {
      val x = pt.get("x")
      if (not(rpos(x)) or not(rlt(x, r1))) ldZero
      else { q: r1, e: r0,
             pw: [pw(x, rsub(p.get("alpha"), r1)), pw(rsub(r1, x), rsub(p.get("beta"), r1))],
             sp: lbeta(p.get("alpha"), p.get("beta"), rm1) }
    }
    else if (cls == "Binomial") {
      val x = pt.get("x") val n = p.get("n").n
      if (not(isInt(x)) or x.n < 0 or x.n > n) ldZero
      else ldQ(rmul(ri(choose(n, x.n)), rmul(rpow(p.get("p"), x.n), rpow(rsub(r1, p.get("p")), n - x.n))))
    }
    else if (cls == "Exponential") {
      val x = pt.get("x")
      if (x.n < 0) ldZero
      else { q: p.get("lam"), e: rneg(rmul(p.get("lam"), x)), pw: [], sp: [] }
    }
    else if (cls == "Gamma") {
      val x = pt.get("x")
      if (not(rpos(x))) ldZero
      else { q: r1, e: rneg(rmul(p.get("beta"), x)),
             pw: [pw(x, rsub(p.get("alpha"), r1)), pw(p.get("beta"), p.get("alpha"))],
             sp: [lgam(p.get("alpha"), rm1)] }
    }
    else if (cls == "NegativeBinomial") {
      val x = pt.get("x")
      if (not(isInt(x)) or x.n < 0) ldZero
      else { q: rmul(rdiv(rising(p.get("n"), x.n), ri(fact(x.n))), rpow(rsub(r1, p.get("p")), x.n)),
             e: r0, pw: [pw(p.get("p"), p.get("n"))], sp: [] }
    }
    else if (cls == "Hypergeometric") {
      val x = pt.get("x") val N = p.get("N").n val k = p.get("k").n val n = p.get("n").n
      if (not(isInt(x)) or x.n < 0 or x.n > k or n - x.n > N - k or x.n > n) ldZero
      else ldQ(mk(choose(k, x.n) * choose(N - k, n - x.n), choose(N, n)))
    }
    else if (cls == "Poisson") {
      val x = pt.get("x")
      if (not(isInt(x)) or x.n < 0) ldZero
      else { q: rdiv(rpow(p.get("lam"), x.n), ri(fact(x.n))), e: rneg(p.get("lam")), pw: [], sp: [] }
    }
    else if (cls == "BetaBinomial") {
      val x = pt.get("x") val n = p.get("n").n val a = p.get("alpha") val b = p.get("beta")
      if (not(isInt(x)) or x.n < 0 or x.n > n) ldZero
      else ldQ(rdiv(rmul(ri(choose(n, x.n)), rmul(rising(a, x.n), rising(b, n - x.n))), rising(radd(a, b), n)))
    }
    else if (cls == "BetaNegativeBinomial") {
      val x = pt.get("x") val n = p.get("n").n val a = p.get("alpha") val b = p.get("beta")
      if (not(isInt(x)) or x.n < 0) ldZero
      else ldQ(rdiv(rmul(ri(choose(n + x.n - 1, x.n)), rmul(rising(b, x.n), rising(a, n))),
                    rising(radd(a, b), n + x.n)))
    }
    else if (cls == "Geometric") {
      val x0 = pt.get("x")
      val x = if (p.get("one_start").n == 1) x0 else radd(x0, r1)
      if (not(isInt(x)) or x.n < 1) ldZero
      else ldQ(rmul(p.get("p"), rpow(rsub(r1, p.get("p")), x.n - 1)))
    }
    else if (cls == "BetaGeometric") {
      val x0 = pt.get("x") val a = p.get("alpha") val b = p.get("beta")
      val x = if (p.get("one_start").n == 1) x0 else radd(x0, r1)
      if (not(isInt(x)) or x.n < 1) ldZero
      else ldQ(rdiv(rmul(a, rising(b, x.n - 1)), rising(radd(a, b), x.n)))
    }
    else if (cls == "Normal") {
      val d = rsub(pt.get("x"), p.get("mu"))
      { q: r1, e: rdiv(rsq(d), rmul(ri(-2), p.get("sigma2"))),
        pw: [pw(p.get("sigma2"), mk(-1, 2))], sp: [two_pi(mk(-1, 2))] }
    }
    else if (cls == "LogNormal") {
      if (pt.keys().contains("x")) ldZero // a point at or below zero
      else
      val d = rsub(pt.get("lnx"), p.get("mu"))
      { q: r1, e: rsub(rdiv(rsq(d), rmul(ri(-2), p.get("sigma2"))), pt.get("lnx")),
        pw: [pw(p.get("sigma2"), mk(-1, 2))], sp: [two_pi(mk(-1, 2))] }
    }
    else if (cls == "Uniform") {
      val x = pt.get("x")
      if (rlt(x, p.get("low")) or rlt(p.get("high"), x)) ldZero
      else ldQ(rinv(rsub(p.get("high"), p.get("low"))))
    }
    else if (cls == "Pareto") {
      val x = pt.get("x")
      if (rlt(x, p.get("x_m"))) ldZero
      else { q: p.get("alpha"), e: r0,
             pw: [pw(p.get("x_m"), p.get("alpha")), pw(x, rneg(radd(p.get("alpha"), r1)))], sp: [] }
    }
    else if (cls == "InverseGamma" or cls == "ScaledInverseChiSquared") {
      val x = pt.get("x")
      val a = if (cls == "InverseGamma") p.get("alpha") else rmul(half, p.get("nu"))
      val b = if (cls == "InverseGamma") p.get("beta") else rmul(half, rmul(p.get("nu"), p.get("sigma2")))
      if (not(rpos(x))) ldZero
      else { q: r1, e: rneg(rdiv(b, x)), pw: [pw(b, a), pw(x, rneg(radd(a, r1)))], sp: [lgam(a, rm1)] }
    }
    else if (cls == "StudentT") {
      val nu = p.get("nu") val h = rmul(half, radd(nu, r1))
      val z2 = rdiv(rsq(rsub(pt.get("x"), p.get("mu"))), rmul(nu, p.get("sigma2")))
      { q: r1, e: r0,
        pw: [pw(radd(r1, z2), rneg(h)), pw(rmul(nu, p.get("sigma2")), mk(-1, 2))],
        sp: [lgam(h, r1), lgam(rmul(half, nu), rm1), one_pi(mk(-1, 2))] }
    }
    else if (cls == "Lomax") {
      val x = pt.get("x") val a = p.get("alpha") val l = p.get("lam")
      if (x.n < 0) ldZero
      else { q: rdiv(a, l), e: r0, pw: [pw(radd(r1, rdiv(x, l)), rneg(radd(a, r1)))], sp: [] }
    }
    else if (cls == "CompoundGamma") {
      // Gamma(alpha, rate) with rate ~ Gamma(beta, rate lam)
      val x = pt.get("x") val a = p.get("alpha") val b = p.get("beta") val l = p.get("lam")
      if (x.n < 0 or (x.n == 0 and rlt(r1, a))) ldZero
      else if (x.n == 0) { q: rdiv(b, l), e: r0, pw: [], sp: [] } // a = 1 (with a < 1 there is no density at 0)
      else { q: r1, e: r0,
             pw: [pw(x, rsub(a, r1)), pw(l, b), pw(radd(l, x), rneg(radd(a, b)))],
             sp: lbeta(a, b, rm1) }
    }
    else if (cls == "VonMises") {
      // cos(x - mu) from the two directions
      val cc = radd(rmul(pt.get("c"), p.get("c")), rmul(pt.get("s"), p.get("s")))
      { q: r1, e: rmul(p.get("kappa"), cc), pw: [], sp: [two_pi(rm1), lni0(p.get("kappa"), rm1)] }
    }
    else if (cls == "Weibull") {
      // (b/theta) x^(b-1) exp(-x^b/theta); "z" is the exact b-th power of x
      val b = p.get("beta") val t = p.get("theta")
      if (pt.get("x").n <= 0) ldZero
      else { q: rdiv(b, t), e: rneg(rdiv(pt.get("z"), t)), pw: [pw(pt.get("x"), rsub(b, r1))], sp: [] }
    }
    else if (cls == "Dirichlet") {
      // the point is "p0".. on the simplex
      val ks = ["0", "1", "2", "3"]
      { q: r1, e: r0,
        pw: ks.foldl([], (acc, i) => acc.append(pw(pt.get(pKey(i)), rsub(p.get(aKey(i)), r1)))),
        sp: ks.foldl([lgam(rsum(ks.foldl([], (acc, i) => acc.append(p.get(aKey(i))))), r1)],
                     (acc, i) => acc.append(lgam(p.get(aKey(i)), rm1))) }
    }
    else if (cls == "Multinomial" or cls == "DirichletMultinomial") {
      val ks = ["0", "1", "2", "3"]
      val n = rsum(ks.foldl([], (acc, i) => acc.append(pt.get(xKey(i)))))
      val ways = ks.foldl(ri(fact(p.get("n").n)), (acc, i) => rdiv(acc, ri(fact(pt.get(xKey(i)).n))))
      if (not(req(n, p.get("n")))) ldZero
      else if (cls == "Multinomial")
        ldQ(ks.foldl(ways, (acc, i) => rmul(acc, rpow(p.get(pKey(i)), pt.get(xKey(i)).n))))
      else
        ldQ(rdiv(ks.foldl(ways, (acc, i) => rmul(acc, rising(p.get(aKey(i)), pt.get(xKey(i)).n))),
                 rising(rsum(ks.foldl([], (acc, i) => acc.append(p.get(aKey(i))))), n.n)))
    }
    else ldZero

  // ------------------------------------------------------------------
  // Cumulants k1..k4 where they are rational: additive over independent sums.
  // ------------------------------------------------------------------
  pure def cumulants(cls: str, p: Row): List[Rat] =
    if (cls == "Poisson") [p.get("lam"), p.get("lam"), p.get("lam"), p.get("lam")]
    else if (cls == "Exponential") {
      val l = rinv(p.get("lam"))
      [l, rpow(l, 2), rmul(ri(2), rpow(l, 3)), rmul(ri(6), rpow(l, 4))]
    }
    else if (cls == "Gamma") {
      val l = rinv(p.get("beta")) val a = p.get("alpha")
      [rmul(a, l), rmul(a, rpow(l, 2)), rmul(rmul(ri(2), a), rpow(l, 3)), rmul(rmul(ri(6), a), rpow(l, 4))]
    }
    else if (cls == "Normal") [p.get("mu"), p.get("sigma2"), r0, r0]
    else if (cls == "NegativeBinomial") {
      val n = p.get("n") val q = rsub(r1, p.get("p")) val i = rinv(p.get("p"))
      [rmul(n, rmul(q, i)),
       rmul(n, rmul(q, rpow(i, 2))),
       rmul(n, rmul(rmul(q, radd(r1, q)), rpow(i, 3))),
       rmul(n, rmul(rmul(q, radd(r1, radd(rmul(ri(4), q), rsq(q)))), rpow(i, 4)))]
    }
    else []

  /// Mean and variance, where finite and rational ([] otherwise).
  pure def meanVar(cls: str, p: Row): List[Rat] =
    if (Set("Poisson", "Exponential", "Gamma", "Normal", "NegativeBinomial").contains(cls)) {
      val k = cumulants(cls, p)
      [k[0], k[1]]
    }
    else if (cls == "Beta") {
      val a = p.get("alpha") val b = p.get("beta") val s = radd(a, b)
      [rdiv(a, s), rdiv(rmul(a, b), rmul(rsq(s), radd(s, r1)))]
    }
    else if (cls == "Binomial") {
      val m = rmul(p.get("n"), p.get("p"))
      [m, rmul(m, rsub(r1, p.get("p")))]
    }
    else if (cls == "Hypergeometric") {
      val N = p.get("N") val m = rdiv(rmul(p.get("n"), p.get("k")), N)
      [m, if (N.n <= 1) r0 else rdiv(rmul(rmul(m, rsub(N, p.get("k"))), rsub(N, p.get("n"))), rmul(N, rsub(N, r1)))]
    }
    else if (cls == "BetaBinomial") {
      val a = p.get("alpha") val b = p.get("beta") val s = radd(a, b) val n = p.get("n")
      [rdiv(rmul(n, a), s), rdiv(rmul(rmul(n, rmul(a, b)), radd(s, n)), rmul(rsq(s), radd(s, r1)))]
    }
    else if (cls == "Geometric") {
      val i = rinv(p.get("p"))
      [if (p.get("one_start").n == 1) i else rsub(i, r1), rmul(rsub(r1, p.get("p")), rsq(i))]
    }
    else if (cls == "Uniform") {
      val w = rsub(p.get("high"), p.get("low"))
      [rmul(half, radd(p.get("low"), p.get("high"))), rmul(mk(1, 12), rsq(w))]
    }
    else if (cls == "Pareto" and rlt(r2, p.get("alpha"))) {
      val a = p.get("alpha")
      [rdiv(rmul(a, p.get("x_m")), rsub(a, r1)),
       rdiv(rmul(rsq(p.get("x_m")), a), rmul(rsq(rsub(a, r1)), rsub(a, r2)))]
    }
    else if ((cls == "InverseGamma" and rlt(r2, p.get("alpha")))
             or (cls == "ScaledInverseChiSquared" and rlt(ri(4), p.get("nu")))) {
      val a = if (cls == "InverseGamma") p.get("alpha") else rmul(half, p.get("nu"))
      val b = if (cls == "InverseGamma") p.get("beta") else rmul(half, rmul(p.get("nu"), p.get("sigma2")))
      val m = rdiv(b, rsub(a, r1))
      [m, rdiv(rsq(m), rsub(a, r2))]
    }
    else if (cls == "StudentT" and rlt(r2, p.get("nu")))
      [p.get("mu"), rdiv(rmul(p.get("nu"), p.get("sigma2")), rsub(p.get("nu"), r2))]
    else if (cls == "Lomax" and rlt(r2, p.get("alpha"))) {
      val a = p.get("alpha") val m = rdiv(p.get("lam"), rsub(a, r1))
      [m, rdiv(rmul(rsq(m), a), rsub(a, r2))]
    }
    else []

  // ------------------------------------------------------------------
  // Log kernels: the natural parameters of a belief, as coefficients of named
  // functions of the unknown. Keys combine by addition, except "max_" keys,
  // which combine by maximum, and "mul_" keys, which combine by product.
  // ------------------------------------------------------------------
  pure def kernel(cls: str, p: Row): Row =
    if (cls == "Beta" or cls == "BetaBinomial")
      Map("ln_p" -> rsub(p.get("alpha"), r1), "ln_1p" -> rsub(p.get("beta"), r1))
    else if (cls == "Gamma")
      Map("ln_t" -> rsub(p.get("alpha"), r1), "t" -> rneg(p.get("beta")))
    else if (cls == "Normal")
      Map("m" -> rdiv(p.get("mu"), p.get("sigma2")), "m2" -> rneg(rmul(half, rinv(p.get("sigma2")))))
    else if (cls == "InverseGamma")
      Map("ln_v" -> rneg(radd(p.get("alpha"), r1)), "iv" -> rneg(p.get("beta")))
    else if (cls == "ScaledInverseChiSquared")
      Map("ln_v" -> rneg(radd(rmul(half, p.get("nu")), r1)),
          "iv" -> rneg(rmul(half, rmul(p.get("nu"), p.get("sigma2")))))
    else if (cls == "NormalInverseGamma")
      Map("ln_v" -> rneg(radd(p.get("alpha"), mk(3, 2))),
          "iv" -> rneg(radd(p.get("beta"), rmul(half, rmul(p.get("nu"), rsq(p.get("mu")))))),
          "m_iv" -> rmul(p.get("nu"), p.get("mu")),
          "m2_iv" -> rneg(rmul(half, p.get("nu"))))
    else if (cls == "NormalGamma")
      Map("ln_t" -> rsub(p.get("alpha"), half),
          "t" -> rneg(radd(p.get("beta"), rmul(half, rmul(p.get("lam"), rsq(p.get("mu")))))),
          "m_t" -> rmul(p.get("lam"), p.get("mu")),
          "m2_t" -> rneg(rmul(half, p.get("lam"))))
    else if (cls == "Pareto")
      Map("ln_t" -> rneg(radd(p.get("alpha"), r1)), "max_t" -> p.get("x_m"))
    else if (cls == "GammaProportional")
      Map("mul_a" -> p.get("p"), "b" -> rneg(p.get("q")), "gam" -> rneg(p.get("r")), "a_ln_b" -> p.get("s"))
    else if (cls == "GammaKnownRateProportional")
      Map("mul_a" -> p.get("a"), "gam" -> rneg(p.get("b")), "a_ln_b" -> p.get("c"))
    else if (cls == "BetaProportional")
      Map("mul_a" -> p.get("p"), "mul_b" -> p.get("q"), "invbeta" -> p.get("k"))
    else if (cls == "VonMisesKnownConcentration")
      Map("cos" -> p.get("C"), "sin" -> p.get("S"))
    else if (cls == "VonMisesKnownDirectionProportional")
      Map("k" -> p.get("r"), "lni0" -> rneg(p.get("c")))
    else if (cls == "Dirichlet")
      p.keys().mapBy(k => rsub(p.get(k), r1))
    else Map()

  pure def isMax(k: str): bool = k == "max_t"
  pure def isMul(k: str): bool = Set("mul_a", "mul_b").contains(k)
  /// Multiply the densities whose kernels are a and b (same keys).
  pure def kcombine(a: Row, b: Row): Row =
    a.keys().mapBy(k =>
      if (isMax(k)) rmax(a.get(k), b.get(k))
      else if (isMul(k)) rmul(a.get(k), b.get(k))
      else radd(a.get(k), b.get(k)))
  pure def keq(a: Row, b: Row): bool =
    a.keys() == b.keys() and a.keys().forall(k => req(a.get(k), b.get(k)))

  /// The density proportional to a kernel, at a value t of the unknown
  /// (t has the unknowns by name; normalising constant left out).
  pure def kernelAt(cls: str, k: Row, t: Row): LD =
    if (cls == "Beta" or cls == "BetaBinomial")
      { q: r1, e: r0, pw: [pw(t.get("p"), k.get("ln_p")), pw(rsub(r1, t.get("p")), k.get("ln_1p"))], sp: [] }
    else if (cls == "Gamma")
      { q: r1, e: rmul(k.get("t"), t.get("t")), pw: [pw(t.get("t"), k.get("ln_t"))], sp: [] }
    else if (cls == "Normal")
      { q: r1, e: radd(rmul(k.get("m"), t.get("m")), rmul(k.get("m2"), rsq(t.get("m")))), pw: [], sp: [] }
    else if (cls == "InverseGamma" or cls == "ScaledInverseChiSquared")
      { q: r1, e: rdiv(k.get("iv"), t.get("v")), pw: [pw(t.get("v"), k.get("ln_v"))], sp: [] }
    else if (cls == "NormalInverseGamma")
      { q: r1,
        e: rdiv(radd(k.get("iv"), radd(rmul(k.get("m_iv"), t.get("m")), rmul(k.get("m2_iv"), rsq(t.get("m"))))), t.get("v")),
        pw: [pw(t.get("v"), k.get("ln_v"))], sp: [] }
    else if (cls == "NormalGamma")
      { q: r1,
        e: rmul(radd(k.get("t"), radd(rmul(k.get("m_t"), t.get("m")), rmul(k.get("m2_t"), rsq(t.get("m"))))), t.get("t")),
        pw: [pw(t.get("t"), k.get("ln_t"))], sp: [] }
    else if (cls == "Pareto") {
      if (rlt(t.get("t"), k.get("max_t"))) ldZero
      else { q: r1, e: r0, pw: [pw(t.get("t"), k.get("ln_t"))], sp: [] }
    }
    else if (cls == "GammaProportional" or cls == "GammaKnownRateProportional")
      { q: r1,
        e: if (cls == "GammaProportional") rmul(k.get("b"), t.get("b")) else r0,
        pw: [pw(k.get("mul_a"), rsub(t.get("a"), r1)), pw(t.get("b"), rmul(k.get("a_ln_b"), t.get("a")))],
        sp: [lgam(t.get("a"), k.get("gam"))] }
    else if (cls == "BetaProportional")
      { q: r1, e: r0,
        pw: [pw(k.get("mul_a"), t.get("a")), pw(k.get("mul_b"), t.get("b"))],
        sp: lbeta(t.get("a"), t.get("b"), rneg(k.get("invbeta"))) }
    else if (cls == "VonMisesKnownConcentration")
      { q: r1, e: radd(rmul(k.get("cos"), t.get("c")), rmul(k.get("sin"), t.get("s"))), pw: [], sp: [] }
    else if (cls == "VonMisesKnownDirectionProportional")
      { q: r1, e: rmul(k.get("k"), t.get("k")), pw: [], sp: [lni0(t.get("k"), k.get("lni0"))] }
    else ldZero

  /// The normalising constant of a kernel (integral over the unknown).
  pure def kernelZ(cls: str, k: Row): LD =
    if (cls == "Beta")
      { q: r1, e: r0, pw: [], sp: lbeta(radd(k.get("ln_p"), r1), radd(k.get("ln_1p"), r1), r1) }
    else if (cls == "Gamma") {
      val a = radd(k.get("ln_t"), r1)
      { q: r1, e: r0, pw: [pw(rneg(k.get("t")), rneg(a))], sp: [lgam(a, r1)] }
    }
    else if (cls == "InverseGamma" or cls == "ScaledInverseChiSquared") {
      val a = rsub(rneg(k.get("ln_v")), r1)
      { q: r1, e: r0, pw: [pw(rneg(k.get("iv")), rneg(a))], sp: [lgam(a, r1)] }
    }
    else if (cls == "Normal") {
      val h = rneg(k.get("m2"))
      { q: r1, e: rdiv(rsq(k.get("m")), rmul(ri(4), h)), pw: [pw(h, mk(-1, 2))], sp: [one_pi(half)] }
    }
    else if (cls == "NormalInverseGamma") {
      // first over m (Gaussian), then over v
      val nu = rmul(ri(-2), k.get("m2_iv"))
      val b = rsub(rneg(k.get("iv")), rdiv(rsq(k.get("m_iv")), rmul(r2, nu)))
      val a = rsub(rneg(k.get("ln_v")), mk(3, 2))
      { q: r1, e: r0, pw: [pw(nu, mk(-1, 2)), pw(b, rneg(a))], sp: [lgam(a, r1), two_pi(half)] }
    }
    else if (cls == "NormalGamma") {
      val la = rmul(ri(-2), k.get("m2_t"))
      val b = rsub(rneg(k.get("t")), rdiv(rsq(k.get("m_t")), rmul(r2, la)))
      val a = radd(k.get("ln_t"), half)
      { q: r1, e: r0, pw: [pw(la, mk(-1, 2)), pw(b, rneg(a))], sp: [lgam(a, r1), two_pi(half)] }
    }
    else if (cls == "Dirichlet")
      { q: r1, e: r0, pw: [],
        sp: ["a0", "a1", "a2", "a3", "a4"].select(x => k.keys().contains(x)).foldl(
              [lgam(k.keys().fold(r0, (s, x) => radd(s, radd(k.get(x), r1))), rm1)],
              (acc, x) => acc.append(lgam(radd(k.get(x), r1), r1))) }
    else ldZero
}
