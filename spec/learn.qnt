// -*- mode: quint -*-
/// Bayesian learning as a state machine.
///
/// State: an append-only pool of distributions. A belief carries, lane by lane,
/// its hyperparameters (the documented update rule) and, as a ghost, the kernel
/// obtained by multiplying the prior by the likelihood of every single
/// observation seen so far (Bayes' rule). Histories branch: any earlier belief
/// may be updated again, with any batch (also an empty one), or predicted from.
///
/// The invariants relate the two; the recorded operations (variable `op`) are
/// replayed on the implementation by the conformance harness.
module learn {
  import rat.* from "./rat"
  import families.* from "./families"
  import models.* from "./models"
  import args.* from "./args"

  /// Which models, layouts and actions a check explores.
  const MODELS: List[str]
  /// Lanes are arranged in r rows and c columns; `arr`: arrays even for one lane.
  const LAYOUTS: List[{ r: int, c: int, arr: bool }]
  const OPS: Set[str]
  /// Largest multiplicity class of an observation.
  const MULT: int
  /// May known constants change from batch to batch?
  const VARY_KNOWN: bool

  type Pt = { at: List[Row], ld: List[LD] }
  type Obj = { kind: str, cls: str, parent: int, lanes: List[Row], truth: List[Row],
               batch: List[Obs], known: List[Row], seen: List[Obs] }
  type Op = { act: str, fn: str, src: int, dst: int, cls: str, args: List[Arg], pts: List[Pt], mag: List[Rat], order: List[int] }

  var model: str
  var prior: str
  var layout: Layout
  var pool: List[Obj]
  var op: Op

  // ---------------------------------------------------------------- batches
  pure def isDesignField(f: Field): bool = Set("cnt_trials", "cnt_draws", "cnt_expo").contains(f.dom)

  /// One raw observation: field values plus its multiplicity.
  pure def genObs(m: str, known: Row, w: int, k: int, kn: int, kx: int, mult: int): Row = {
    val fs = obsFields(m)
    val raw = range(0, fs.length()).foldl(Map(), (acc, i) =>
      acc.put(fs[i].name, valueOf(fs[i].dom, w, k + i * 1000 + (if (isDesignField(fs[i])) kn else kx), false)))
    val cooked =
      if (m == "binomial_beta" or m == "hypergeometric_beta_binomial")
        raw.put("x", ri(rfloor(rmul(raw.get("n"), raw.get("x")))))
      else if (m == "geometric_beta" and known.get("one_start").n == 1) raw.put("x", radd(raw.get("x"), r1))
      else if (m == "pareto_gamma") raw.put("lnx", radd(known.get("exp:x_m"), raw.get("lnx")))
      else if (m == "von_mises_known_concentration") dirs[raw.get("dir").n]
      else raw
    val ms = if (mult == 0) [1] else if (mult == 1) [1, 1, 2, 3] else [1, 1, 1, 2, 10, 1000, 1000000, 1000000000]
    cooked.put("m", ri(pick(w, k + 9000 + kn, ms)))
  }

  pure def genBatch(m: str, known: List[Row], w: int, lay: Layout, rn: str, rx: str, mult: int, empty: bool): List[Obs] =
    toList(0.to(lanesOf(lay) - 1).mapBy(l => {
      val kn = idx(rn, lay, l)
      val kx = idx(joinRole(rn, rx), lay, l)
      val nobs = if (empty) 0 else if (m == "bernoulli_beta") 1 else rnd(w, 500 + kn, 4)
      toList(0.to(nobs - 1).mapBy(j => genObs(m, known[l], w, 100000 * (j + 1), kn, kx, mult)))
    }))

  pure def isCount(name: str): bool = name == "n"

  /// The call's arguments for a batch: statistics with the roles they have by
  /// construction, and the known constants.
  pure def callArgs(m: str, batch: List[Obs], w: int, lay: Layout, rn: str, rx: str, known: List[Arg]): List[Arg] = {
    val st = toList(0.to(lanesOf(lay) - 1).mapBy(l => statistics(m, batch[l])))
    val names = ["n", "x", "x_total", "x2_total", "ln_x_total", "ln_x2_total", "x_prod", "one_minus_x_prod", "x_max",
                 "reciprocal_x_total", "cos_total", "sin_total", "centered_cos_total", "x_beta_total", "x0", "x1", "x2", "x3"]
                .select(s => st[0].keys().contains(s))
    // (observations above a known minimum vary wherever the minimum does)
    val rs = if (m == "pareto_gamma") joinRole(joinRole(rn, rx), known[0].role) else joinRole(rn, rx)
    toList(0.to(names.length() - 1).mapBy(i =>
      mkArg(names[i], if (isCount(names[i])) rn else rs, w, 700 + 20 * i, toList(0.to(lanesOf(lay) - 1).mapBy(l => st[l].get(names[i]))))))
    .concat(known)
  }

  /// Known constants (with the start convention of the geometric models).
  pure def genKnown(m: str, w: int, k: int, lay: Layout): List[Arg] =
    genArgs(knownFields(m), w, k, lay, false).concat(
      if (m == "geometric_beta") [mkArg("one_start", "const", w, k * 10000 + 9000,
        toList(0.to(lanesOf(lay) - 1).mapBy(_ => ri(rnd(w, k * 10000 + 9001, 2)))))]
      else [])

  /// Which constants a history keeps fixed (a rate inside an unnormalised
  /// posterior, and conventions).
  pure def mustStay(m: str): bool = Set("gamma_known_rate", "geometric_beta").contains(m)

  // ---------------------------------------------------------------- actions
  var knownArgs: List[Arg]

  action init = {
    nondet w = 0.to(bigW).oneOf()
    val m = pick(w, 1, MODELS)
    val lay = pick(w, 2, LAYOUTS)
    val cls = pick(w, 3, priorClasses(m))
    val args = genArgs(paramFields(cls), w, 4, lay, cls == "Dirichlet")
    val lanes = toList(0.to(lanesOf(lay) - 1).mapBy(l => rowOf(args, l)))
    val ka = genKnown(m, w, 5, lay)
    val none: List[Obs] = toList(0.to(lanesOf(lay) - 1).mapBy(_ => []))
    val kr = toList(0.to(lanesOf(lay) - 1).mapBy(l => rowOf(ka, l)))
    all {
      model' = m,
      prior' = cls,
      layout' = lay,
      knownArgs' = ka,
      pool' = [{ kind: "prior", cls: cls, parent: -1, lanes: lanes, truth: toList(lanes.indices().mapBy(l => kernel(cls, lanes[l]))),
                 batch: none, known: kr, seen: none }],
      op' = { act: "prior", fn: "", src: -1, dst: 0, cls: cls, args: args, pts: [], mag: [], order: [] },
    }
  }

  def beliefs: List[int] = pool.indices().filter(i => pool[i].kind != "predictive").fold([], (acc, i) => acc.append(i))
  def source(w: int): int = {
    val bs = beliefs
    if (rnd(w, 11, 4) > 0) bs.foldl(0, (a, b) => if (b > a) b else a) else pick(w, 12, bs)
  }
  action same = all { model' = model, prior' = prior, layout' = layout, knownArgs' = knownArgs }

  /// Learn from one batch.
  action learnBatch(w: int, empty: bool): bool = {
    val src = source(w)
    val ka = if (VARY_KNOWN and not(mustStay(model)) and rnd(w, 20, 2) == 0) genKnown(model, w, 6, layout) else knownArgs
    val kr = toList(0.to(lanesOf(layout) - 1).mapBy(l => rowOf(ka, l)))
    val rn = pickRole(w, 21, layout)
    val rx = pickRole(w, 22, layout)
    val mult = if (multiplicity(model) < MULT) multiplicity(model) else MULT
    val batch = genBatch(model, kr, w, layout, rn, rx, mult, empty and model != "bernoulli_beta")
    val args = callArgs(model, batch, w, layout, rn, rx, ka)
    val b = pool[src]
    all {
      same,
      pool' = pool.append({
        kind: "belief", cls: prior, parent: src,
        lanes: toList(0.to(lanesOf(layout) - 1).mapBy(l => update(model, prior, b.lanes[l], rowOf(args, l)))),
        truth: toList(0.to(lanesOf(layout) - 1).mapBy(l => learnAll(model, prior, kr[l], b.truth[l], batch[l]))),
        batch: batch, known: kr, seen: toList(0.to(lanesOf(layout) - 1).mapBy(l => b.seen[l].concat(batch[l]))) }),
      op' = { act: "update", fn: model, src: src, dst: pool.length(), cls: prior, args: args, pts: [],
              mag: toList(0.to(lanesOf(layout) - 1).mapBy(l => magnitude(model, prior, b.lanes[l], rowOf(args, l)))), order: [] },
    }
  }
  action learn = { nondet w = 0.to(bigW).oneOf() all { OPS.contains("update"), learnBatch(w, false) } }
  action learnNothing = { nondet w = 0.to(bigW).oneOf() all { OPS.contains("empty"), learnBatch(w, true) } }

  /// Is the known part the same along the whole path from the prior?
  def steady(i: int): bool = pool.indices().forall(j => pool[j].known == pool[0].known)

  /// One update with everything a belief has seen, in reversed order of the
  /// observations: the result has to be that belief. The harness also permutes
  /// the batches themselves.
  action joint = {
    nondet w = 0.to(bigW).oneOf()
    val i = source(w)
    val b = pool[i]
    val all_obs = toList(b.seen.indices().mapBy(l => b.seen[l].foldl([], (acc, x) => [x].concat(acc))))
    val fr = { val rs = roles(layout) rs[rs.length() - 1] }
    val args = callArgs(model, all_obs, w, layout, fr, fr, knownArgs)
    all {
      OPS.contains("joint"), i > 0, steady(i), model != "bernoulli_beta",
      same,
      pool' = pool.append({ kind: "belief", cls: prior, parent: 0,
        lanes: toList(0.to(lanesOf(layout) - 1).mapBy(l => update(model, prior, pool[0].lanes[l], rowOf(args, l)))),
        truth: toList(0.to(lanesOf(layout) - 1).mapBy(l => learnAll(model, prior, pool[0].known[l], pool[0].truth[l], all_obs[l]))),
        batch: all_obs, known: pool[0].known, seen: all_obs }),
      op' = { act: "joint", fn: model, src: i, dst: pool.length(), cls: prior, args: args, pts: [],
              mag: toList(0.to(lanesOf(layout) - 1).mapBy(l => magnitude(model, prior, pool[0].lanes[l], rowOf(args, l)))), order: [] },
    }
  }

  /// The batches on the path from the prior, learnt again in another order.
  def path(i: int): List[int] =
    range(0, 12).foldl([i], (acc, _) => if (pool[acc[0]].parent < 0) acc else [pool[acc[0]].parent].concat(acc))
  action reorder = {
    nondet w = 0.to(bigW).oneOf()
    val i = source(w)
    val p = path(i)
    val steps = p.slice(1, p.length())
    // rotate by a chosen amount, maybe reversed
    val n = steps.length()
    val rot = if (n == 0) [] else toList(0.to(n - 1).mapBy(j => steps[(j + rnd(w, 31, 12)) % n]))
    val ord = if (rnd(w, 32, 2) == 0) rot else rot.foldl([], (acc, x) => [x].concat(acc))
    all {
      OPS.contains("reorder"), n >= 2, steps.indices().forall(j => pool[steps[j]].kind == "belief"),
      same,
      pool' = pool.append(pool[i].with("parent", 0).with("kind", "reordered")),
      op' = { act: "reorder", fn: model, src: i, dst: pool.length(), cls: prior, args: [], pts: [], mag: [], order: ord },
    }
  }

  // ---- prediction ----
  pure def outcomeDomain(f: str): List[Rat] =
    if (f == "bernoulli_beta_predictive") [ri(0), ri(1), ri(-1), ri(2)]
    else if (f == "binomial_beta_predictive") [ri(0), ri(1), ri(2), ri(3), ri(5), ri(10), ri(60), ri(150), ri(-1)]
    else if (Set("geometric_beta_predictive", "negative_binomial_beta_predictive", "poisson_gamma_predictive").contains(f))
      [ri(0), ri(1), ri(2), ri(3), ri(7), ri(25), ri(171), ri(-1)]
    else if (Set("exponential_gamma_predictive", "gamma_known_shape_predictive").contains(f))
      [mk(1, 8), mk(1, 2), ri(1), ri(2), ri(9), ri(100), ri(-1)]
    else [ri(-100), ri(-3), mk(-1, 2), ri(0), ri(1), mk(5, 2), ri(20)]

  pure def outcome(f: str, a: Row, w: int, k: int, j: int): Row =
    if (f == "categorical_dirichlet_predictive" or f == "multinomial_dirichlet_predictive") {
      // distribute the n trials over the four categories
      val n = a.get("n").n
      range(0, n).foldl([], (acc, t) => acc.append(rnd(w, k + t * 17, 4))).foldl(Map("x0" -> r0, "x1" -> r0, "x2" -> r0, "x3" -> r0),
        (acc, c) => acc.setBy(["x0", "x1", "x2", "x3"][c], v => radd(v, r1)))
    }
    else { val l = outcomeDomain(f) Map("x" -> l[(rnd(w, k, l.length()) + j) % l.length()]) }

  action predict = {
    nondet w = 0.to(bigW).oneOf()
    val src = source(w)
    val b = pool[src]
    val fs = predictives(model, prior)
    all {
      OPS.contains("predict"), fs.length() > 0,
      {
        val f = pick(w, 40, fs)
        val args0 = genArgs(predFields(f), w, 7, layout, false).concat(
          if (f == "geometric_beta_predictive") knownArgs else [])
        // "n" may be left to its default of one
        val args = args0
        val pts = toList(0.to(5).mapBy(j => {
          val at = toList(0.to(lanesOf(layout) - 1).mapBy(l => outcome(f, rowOf(args, l), w, 50000 + l * 100, j)))
          { at: at, ld: toList(0.to(lanesOf(layout) - 1).mapBy(l => evidence(f, prior, b.truth[l], rowOf(args, l), at[l]))) }
        }))
        all {
          same,
          pool' = pool.append({ kind: "predictive", cls: predictiveClass(f), parent: src,
            lanes: toList(0.to(lanesOf(layout) - 1).mapBy(l => predictiveRow(f, prior, b.lanes[l], rowOf(args, l)))), truth: [],
            batch: [], known: toList(0.to(lanesOf(layout) - 1).mapBy(l => rowOf(args, l))), seen: [] }),
          op' = { act: "predict", fn: f, src: src, dst: pool.length(), cls: predictiveClass(f), args: args,
                  pts: pts, mag: [], order: [] },
        }
      }
    }
  }

  // ---- what the library's own likelihood class says about the last batch ----
  pure def unknowns(m: str, cls: str): List[Field] =
    if (Set("binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta").contains(m)) [fd("p", "unit")]
    else if (m == "categorical_dirichlet" or m == "multinomial_dirichlet") [fd("u0", "count1"), fd("u1", "count1"), fd("u2", "count1"), fd("u3", "count1")]
    else if (Set("poisson_gamma", "exponential_gamma", "gamma_known_shape", "inverse_gamma_known_rate", "pareto_gamma").contains(m)) [fd("t", "modest")]
    else if (m == "uniform_pareto") [fd("t", "pos")]
    else if (m == "normal_known_variance" or m == "normal_known_precision") [fd("m", "real1")]
    else if (m == "normal_known_mean") [fd("v", "modest")]
    else if (Set("normal", "log_normal", "normal_normal_inverse_gamma").contains(m))
      [fd("m", "real1"), if (cls == "NormalGamma") fd("t", "modest") else fd("v", "modest")]
    else if (m == "gamma" or m == "beta") [fd("a", "wide"), fd("b", "wide")]
    else if (m == "gamma_known_rate") [fd("a", "wide")]
    else if (m == "von_mises_known_concentration") [fd("dir", "dir")]
    else if (m == "von_mises_known_direction") [fd("k", "wide")]
    else if (m == "weibull_inverse_gamma_known_shape") [fd("v", "modest"), fd("shape", "wshape")]
    else []

  pure def genUnknown(m: str, cls: str, known: Row, w: int, k: int): Row = {
    val fs = unknowns(m, cls)
    val raw = range(0, fs.length()).foldl(Map(), (acc, i) =>
      acc.put(fs[i].name, if (fs[i].dom == "wshape") pick(w, 61, [r1, r2, half, ri(3)]) else valueOf(fs[i].dom, w, k + 13 * i, false)))
    if (m == "von_mises_known_concentration") dirs[raw.get("dir").n]
    else if (m == "gamma_known_rate") raw.put("b", known.get("beta"))
    else if (m == "categorical_dirichlet" or m == "multinomial_dirichlet") {
      val s = rsum([raw.get("u0"), raw.get("u1"), raw.get("u2"), raw.get("u3")])
      Map("p0" -> rdiv(raw.get("u0"), s), "p1" -> rdiv(raw.get("u1"), s), "p2" -> rdiv(raw.get("u2"), s), "p3" -> rdiv(raw.get("u3"), s))
    }
    else raw
  }

  /// Density of one observation under the library's class for the likelihood,
  /// at the value t of the unknown.
  pure def dataDensity(m: str, cls: str, k: Row, t: Row, o: Row): LD =
    if (m == "binomial_beta") density("Binomial", Map("n" -> o.get("n"), "p" -> t.get("p")), o)
    else if (m == "bernoulli_beta") density("Binomial", Map("n" -> r1, "p" -> t.get("p")), o)
    else if (m == "negative_binomial_beta") density("NegativeBinomial", Map("n" -> k.get("r"), "p" -> t.get("p")), o)
    else if (m == "geometric_beta") density("Geometric", Map("p" -> t.get("p"), "one_start" -> k.get("one_start")), o)
    else if (m == "categorical_dirichlet")
      ldQ(t.get(["p0", "p1", "p2", "p3"][o.get("cat").n]))
    else if (m == "multinomial_dirichlet")
      ldQ(rmul(mk(fact(o.get("x0").n + o.get("x1").n + o.get("x2").n + o.get("x3").n),
                  fact(o.get("x0").n) * fact(o.get("x1").n) * fact(o.get("x2").n) * fact(o.get("x3").n)),
               rmul(rmul(rpow(t.get("p0"), o.get("x0").n), rpow(t.get("p1"), o.get("x1").n)),
                    rmul(rpow(t.get("p2"), o.get("x2").n), rpow(t.get("p3"), o.get("x3").n)))))
    else if (m == "poisson_gamma") density("Poisson", Map("lam" -> rmul(t.get("t"), o.get("t"))), o)
    else if (m == "exponential_gamma") density("Exponential", Map("lam" -> t.get("t")), o)
    else if (m == "gamma_known_shape") density("Gamma", Map("alpha" -> k.get("alpha"), "beta" -> t.get("t")), o)
    else if (m == "inverse_gamma_known_rate") density("InverseGamma", Map("alpha" -> k.get("alpha"), "beta" -> t.get("t")), o)
    else if (m == "pareto_gamma")
      { q: t.get("t"), e: rsub(rmul(t.get("t"), k.get("exp:x_m")), rmul(radd(t.get("t"), r1), o.get("lnx"))), pw: [], sp: [] }
    else if (m == "normal_known_variance") density("Normal", Map("mu" -> t.get("m"), "sigma2" -> k.get("var")), o)
    else if (m == "normal_known_precision") density("Normal", Map("mu" -> t.get("m"), "sigma2" -> rinv(k.get("precision"))), o)
    else if (m == "normal_known_mean") density("Normal", Map("mu" -> k.get("mu"), "sigma2" -> t.get("v")), o)
    else if (m == "normal" or m == "normal_normal_inverse_gamma")
      density("Normal", Map("mu" -> t.get("m"), "sigma2" -> if (cls == "NormalGamma") rinv(t.get("t")) else t.get("v")), o)
    else if (m == "log_normal")
      density("LogNormal", Map("mu" -> t.get("m"), "sigma2" -> if (cls == "NormalGamma") rinv(t.get("t")) else t.get("v")), Map("lnx" -> o.get("x")))
    else if (m == "uniform_pareto") density("Uniform", Map("low" -> r0, "high" -> t.get("t")), o)
    else if (m == "gamma" or m == "gamma_known_rate") density("Gamma", Map("alpha" -> t.get("a"), "beta" -> t.get("b")), o)
    else if (m == "beta") density("Beta", Map("alpha" -> t.get("a"), "beta" -> t.get("b")), o)
    else if (m == "von_mises_known_concentration")
      density("VonMises", Map("c" -> t.get("c"), "s" -> t.get("s"), "kappa" -> k.get("kappa")), o)
    else if (m == "von_mises_known_direction")
      { q: r1, e: rmul(t.get("k"), o.get("x")), pw: [], sp: [two_pi(rm1), lni0(t.get("k"), rm1)] }
    else if (m == "weibull_inverse_gamma_known_shape")
      { q: rdiv(t.get("shape"), t.get("v")), e: rneg(rdiv(o.get("x"), t.get("v"))),
        pw: [pw(o.get("x"), rdiv(rsub(t.get("shape"), r1), t.get("shape")))], sp: [] }
    else ldZero

  pure def unnormalised(cls: str): bool =
    Set("GammaProportional", "GammaKnownRateProportional", "BetaProportional", "VonMisesKnownConcentration", "VonMisesKnownDirectionProportional").contains(cls)
  action recover = {
    nondet w = 0.to(bigW).oneOf()
    val i = source(w)
    val b = pool[i]
    all {
      OPS.contains("recover"), i > 0, b.kind == "belief",
      {
        val pts = toList(0.to(3).mapBy(j => {
          val at = toList(0.to(lanesOf(layout) - 1).mapBy(l => genUnknown(model, prior, b.known[l], w, 70000 + 1000 * j + 50 * l)))
          { at: at, ld: toList(0.to(lanesOf(layout) - 1).mapBy(l => b.batch[l].foldl(ldOne, (acc, o) =>
              ldMul(acc, ldPow(dataDensity(model, prior, b.known[l], at[l], o), o.get("m").n))))) }
        }))
        // the belief's own log likelihood, where it has such a method
        val own = if (not(unnormalised(prior))) [] else
          toList(pts.indices().mapBy(j => { at: pts[j].at, ld: toList(0.to(lanesOf(layout) - 1).mapBy(l =>
            kernelAt(prior, kernel(prior, b.lanes[l]), pts[j].at[l]))) }))
        all {
          same, pool' = pool,
          op' = { act: "recover", fn: model, src: b.parent, dst: i, cls: prior, args: [], pts: pts.concat(own), mag: [], order: [] },
        }
      }
    }
  }

  /// Lanes of a belief or predictive are selected: the selection of the result
  /// has to be the result of the selected arguments.
  pure def sliceableBelief(cls: str): bool =
    Set("Beta", "BetaBinomial", "Gamma", "InverseGamma", "Normal", "ScaledInverseChiSquared", "Pareto").contains(cls)
  action selectLanes = {
    nondet w = 0.to(bigW).oneOf()
    val i = rnd(w, 3, pool.length())
    val n = lanesOf(layout)
    val kind = pick(w, 4, ["int", "list", "array", "slice", "mask"])
    val start = rnd(w, 5, n)
    val stride = 1 + rnd(w, 6, 2)
    val ord =
      if (kind == "int") [rnd(w, 7, 2 * n) - n]
      else if (kind == "slice") range(0, n).foldl([], (acc, j) => if (j >= start and (j - start) % stride == 0) acc.append(j) else acc)
      else if (kind == "mask") range(0, n).foldl([], (acc, j) => if (rnd(w, 20 + j, 2) == 0) acc.append(j) else acc)
      else toList(0.to(rnd(w, 8, 4)).mapBy(j => rnd(w, 30 + j, 2 * n) - n))
    all {
      OPS.contains("select"), layout.r == 1, layout.arr, sliceableBelief(prior),
      pool[i].kind == "belief" or pool[i].kind == "predictive",
      same, pool' = pool,
      op' = { act: "select", fn: kind, src: pool[i].parent, dst: i, cls: pool[i].cls, args: [], pts: [], mag: [], order: ord },
    }
  }

  action step = any { learn, learnNothing, joint, reorder, predict, recover, selectLanes }

  // ---------------------------------------------------------------- properties
  /// Bayes' rule: the hyperparameters describe prior times likelihood.
  /// (The pool is append-only, so it is enough to look at its newest member.)
  val bayes = {
    val b = pool[pool.length() - 1]
    b.kind == "predictive" or b.lanes.indices().forall(l => keq(kernel(b.cls, b.lanes[l]), b.truth[l]))
  }

  /// A joint update gives the belief it summarises.
  val batching = op.act == "joint" implies
    pool[op.src].lanes.indices().forall(l => keq(pool[op.src].lanes[l], pool[op.dst].lanes[l]))

  /// Learning from nothing changes nothing.
  val nothing = (op.act == "update" and pool[op.dst].batch.indices().forall(l => pool[op.dst].batch[l].length() == 0)) implies
    pool[op.src].lanes.indices().forall(l => keq(pool[op.src].lanes[l], pool[op.dst].lanes[l]))

  /// Hyperparameters stay admissible.
  pure val positiveFields: Set[str] = Set("alpha", "beta", "nu", "lam", "sigma2", "kappa", "x_m", "a0", "a1", "a2", "a3")
  val admissible = {
    val b = pool[pool.length() - 1]
    b.lanes.indices().forall(l => {
      val r = b.lanes[l]
      r.keys().forall(k => not(positiveFields.contains(k)) or rpos(r.get(k)))
    })
  }

  // Evidence against the closed-form predictive family: ratios of the two
  // densities are compared exactly after squaring (exponents are multiples of
  // one half whenever the shapes are).
  pure def halfInts(d: LD): bool = d.pw.indices().forall(i => d.pw[i].x.d <= 2)
  // (products are compared without reducing them)
  pure def raw(a: Rat, b: Rat): Rat = { n: a.n * b.n, d: a.d * b.d }
  pure def sq(d: LD): Rat = d.pw.foldl(rsq(d.q), (s, p) => raw(s, rpow(p.b, rmul(p.x, r2).n)))
  pure def noSp(d: LD): LD = d.with("sp", [])
  pure def ratioEq(a1: LD, a2: LD, b1: LD, b2: LD): bool = {
    val l = ldDiv(noSp(a1), noSp(a2))
    val r = ldDiv(noSp(b1), noSp(b2))
    val u = sq(l)
    val v = sq(r)
    req(l.e, r.e) and u.n * v.d == v.n * u.d
  }
  pure def tame(d: LD): bool = halfInts(d) and d.pw.indices().forall(i => iabs(d.pw[i].x.n) < 60)
  def predOk(p: Obj, l: int): bool = {
    val ds = toList(op.pts.indices().mapBy(i => density(p.cls, p.lanes[l], op.pts[i].at[l])))
    // a reference point where the outcome is possible
    val j = op.pts.indices().fold(-1, (r, i) => if (op.pts[i].ld[l].q.n != 0) i else r)
    op.pts.indices().forall(i => {
      val a1 = op.pts[i].ld[l]
      val b1 = ds[i]
      if (a1.q.n == 0) b1.q.n == 0
      else if (isDiscrete(p.cls)) b1.q.n != 0
      else if (tame(a1) and tame(op.pts[j].ld[l]) and tame(b1) and tame(ds[j])) ratioEq(a1, op.pts[j].ld[l], b1, ds[j])
      else true
    })
  }
  val predictiveLaw = (op.act == "predict" and op.cls != "DirichletMultinomial") implies
    pool[op.dst].lanes.indices().forall(l => predOk(pool[op.dst], l))

  val inv = and { bayes, batching, nothing, admissible, predictiveLaw }
}
