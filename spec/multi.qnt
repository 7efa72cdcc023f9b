// -*- mode: quint -*-
/// Learning about vectors: regression coefficients, means and covariances.
///
/// As in learn.qnt, a pool of beliefs carries the documented hyperparameters
/// and, as a ghost, the kernel obtained from prior times likelihood, one
/// observation at a time. Kernels:
///   MultivariateNormal   exp(-m'Lm/2 + h'm)
///   NormalInverseGamma   v^-(n + 1 + p/2) exp(-(c + b'Lb/2 - h'b)/v)
///   InverseWishart       |S|^-(n + p + 1)/2 exp(-tr(L S^-1)/2)
///   NormalInverseWishart |S|^-(n + p + 2)/2 exp(-tr((L - hm' - mh' + c mm')S^-1)/2)
///   NormalWishart        |T|^(n - p)/2 exp(-tr((L - hm' - mh' + c mm')T)/2)
///   Wishart              |T|^(n - p - 1)/2 exp(-tr(L T)/2)
module multi {
  import rat.* from "./rat"
  import mat.* from "./mat"
  import keys.* from "./keys"
  import args.* from "./args"
  import families.* from "./families"

  const MODELS: List[str]
  const DIMS: List[int]
  const OPS: Set[str]
  const VARY_KNOWN: bool

  type Kern = { lam: Mat, h: Mat, c: Rat, n: Rat }
  type Obj = { kind: str, cls: str, parent: int, mu: Mat, mat: Mat, sc: Row, truth: Kern }
  /// One batch: rows of observations, responses, multiplicities.
  type Batch = { x: List[List[Rat]], y: List[Rat], m: List[int] }
  type Pt = { at: List[Rat], mat: Mat, ld: LD }
  type Op = { act: str, fn: str, src: int, dst: int, batch: Batch, known: Mat, xbar: Mat, order: List[int],
              key: Key, ok: bool, form: int, pts: List[Pt] }

  var model: str
  var p: int
  var pool: List[Obj]
  var history: List[{ batch: Batch, known: Mat }]
  var op: Op

  pure val noMat: Mat = { m: [], d: 1 }
  pure val noBatch: Batch = { x: [], y: [], m: [] }
  pure val noKern: Kern = { lam: noMat, h: noMat, c: r0, n: r0 }
  pure val noOp: Op = { act: "", fn: "", src: -1, dst: -1, batch: noBatch, known: noMat, xbar: noMat, order: [],
                        key: noKey, ok: true, form: 0, pts: [] }

  // ---------------------------------------------------------------- values
  pure def genVec(n: int, w: int, k: int): Mat = col(toList(0.to(n - 1).mapBy(i => valueOf("mod0", w, k + i, false))))
  pure def genRow(n: int, w: int, k: int): List[Rat] =
    toList(0.to(n - 1).mapBy(i => pick(w, k + i, [ri(-2), ri(-1), mk(-1, 2), r0, half, r1, r1, r2, ri(3)])))

  pure def priorClass(m: str): str =
    if (m == "linear_regression") "NormalInverseGamma"
    else if (m == "multivariate_normal_known_mean") "InverseWishart"
    else if (m == "multivariate_normal") "NormalInverseWishart"
    else if (m == "none:nw") "NormalWishart"
    else if (m == "none:t") "MultivariateStudentT"
    else if (m == "none:ig") "InverseGamma"
    else "MultivariateNormal"
  pure def gaussian(m: str): bool = m == "multivariate_normal_known_covariance" or m == "multivariate_normal_known_precision"

  pure def genObj(cls: str, n: int, w: int): Obj = {
    val mu = genVec(n, w, 100)
    val mt = genSpd(n, w, 200)
    val big = radd(ri(n - 1), valueOf("posm", w, 300, false))
    val sc = if (cls == "NormalInverseGamma" or cls == "InverseGamma")
               Map("alpha" -> valueOf("posm", w, 301, false), "beta" -> valueOf("posm", w, 302, false))
             else if (cls == "InverseWishart") Map("nu" -> big)
             else if (cls == "NormalInverseWishart") Map("nu" -> big, "kappa" -> valueOf("posm", w, 303, false))
             else if (cls == "NormalWishart") Map("nu" -> big, "lam" -> valueOf("posm", w, 303, false))
             else if (cls == "MultivariateStudentT") Map("nu" -> valueOf("posm", w, 300, false))
             else Map()
    { kind: "prior", cls: cls, parent: -1, mu: mu, mat: mt, sc: sc, truth: kern(cls, mu, mt, sc) }
  }

  // ---------------------------------------------------------------- kernels
  pure def kern(cls: str, mu: Mat, m: Mat, sc: Row): Kern =
    if (cls == "MultivariateNormal") { val l = minv(m) { lam: l, h: mmul(l, mu), c: r0, n: r0 } }
    else if (cls == "NormalInverseGamma") {
      val l = minv(m)
      { lam: l, h: mmul(l, mu), c: radd(sc.get("beta"), rmul(half, quad(l, mu))), n: sc.get("alpha") }
    }
    else if (cls == "InverseWishart") { lam: m, h: noMat, c: r0, n: sc.get("nu") }
    else if (cls == "NormalInverseWishart")
      { lam: madd(m, mscale(outer(mu), sc.get("kappa"))), h: mscale(mu, sc.get("kappa")), c: sc.get("kappa"), n: sc.get("nu") }
    else if (cls == "NormalWishart")
      { lam: madd(minv(m), mscale(outer(mu), sc.get("lam"))), h: mscale(mu, sc.get("lam")), c: sc.get("lam"), n: sc.get("nu") }
    else if (cls == "Wishart") { lam: minv(m), h: noMat, c: r0, n: sc.get("nu") }
    else noKern
  pure def kernEq(a: Kern, b: Kern): bool = meq(a.lam, b.lam) and meq(a.h, b.h) and req(a.c, b.c) and req(a.n, b.n)

  /// Prior times the likelihood of one observation (seen m times).
  pure def learnOne(m: str, known: Mat, k: Kern, x: List[Rat], y: Rat, times: int): Kern = {
    val v = col(x)
    if (m == "linear_regression")
      { lam: madd(k.lam, outer(v)), h: madd(k.h, mscale(v, y)), c: radd(k.c, rmul(half, rsq(y))), n: radd(k.n, half) }
    else if (gaussian(m)) {
      // known: the precision of one observation
      { lam: madd(k.lam, mscale(known, ri(times))), h: madd(k.h, mscale(mmul(known, v), ri(times))), c: k.c, n: k.n }
    }
    else if (m == "multivariate_normal_known_mean")
      { lam: madd(k.lam, outer(msub(v, known))), h: k.h, c: k.c, n: radd(k.n, r1) }
    else { lam: madd(k.lam, outer(v)), h: madd(k.h, v), c: radd(k.c, r1), n: radd(k.n, r1) }
  }
  pure def precisionOf(m: str, known: Mat): Mat =
    if (m == "multivariate_normal_known_covariance") minv(known) else known
  pure def learnAll(m: str, known: Mat, k: Kern, b: Batch): Kern = {
    val kn = precisionOf(m, known)
    b.x.indices().fold(k, (acc, i) => learnOne(m, kn, acc, b.x[i], b.y[i], b.m[i]))
  }

  // ---------------------------------------------------------------- update
  pure def total(b: Batch): int = b.m.foldl(0, (s, x) => s + x)
  pure def meanOf(n: int, b: Batch): Mat =
    if (total(b) == 0) zeros(n, 1)
    else mscale(b.x.indices().fold(zeros(n, 1), (s, i) => madd(s, mscale(col(b.x[i]), ri(b.m[i])))), mk(1, total(b)))
  pure def gram(n: int, b: Batch, c: Mat): Mat =
    b.x.indices().fold(zeros(n, n), (s, i) => madd(s, outer(msub(col(b.x[i]), c))))

  pure def update(m: str, n: int, o: Obj, known: Mat, b: Batch): { mu: Mat, mat: Mat, sc: Row } =
    if (m == "linear_regression") {
      val delta = minv(o.mat)
      val post = madd(gram(n, b, zeros(n, 1)), delta)
      val inv1 = minv(post)
      val xy = b.x.indices().fold(zeros(n, 1), (s, i) => madd(s, mscale(col(b.x[i]), b.y[i])))
      val mu = mmul(inv1, madd(mmul(delta, o.mu), xy))
      val yy = rsum(toList(b.y.indices().mapBy(i => rsq(b.y[i]))))
      { mu: mu, mat: inv1,
        sc: Map("alpha" -> radd(o.sc.get("alpha"), mk(b.y.length(), 2)),
                "beta" -> radd(o.sc.get("beta"), rmul(half, rsub(radd(yy, quad(delta, o.mu)), quad(post, mu))))) }
    }
    else if (gaussian(m)) {
      val prec = precisionOf(m, known)
      val l0 = minv(o.mat)
      val cnt = ri(total(b))
      val l1 = madd(l0, mscale(prec, cnt))
      val c1 = minv(l1)
      { mu: mmul(c1, madd(mmul(l0, o.mu), mscale(mmul(prec, meanOf(n, b)), cnt))), mat: c1, sc: Map() }
    }
    else if (m == "multivariate_normal_known_mean")
      { mu: o.mu, mat: madd(o.mat, gram(n, b, known)), sc: Map("nu" -> radd(o.sc.get("nu"), ri(b.x.length()))) }
    else {
      val cnt = ri(b.x.length())
      val xm = meanOf(n, b)
      val k0 = o.sc.get("kappa")
      val k1 = radd(k0, cnt)
      { mu: mscale(madd(mscale(o.mu, k0), mscale(xm, cnt)), rinv(k1)),
        mat: madd(madd(o.mat, gram(n, b, xm)), mscale(outer(msub(xm, o.mu)), rdiv(rmul(k0, cnt), k1))),
        sc: Map("nu" -> radd(o.sc.get("nu"), cnt), "kappa" -> k1) }
    }

  /// The known matrix of a call; where nothing is known, the part of the update
  /// that is an outer product (the caller may supply that operation).
  pure def reported(m: str, n: int, o: Obj, known: Mat, b: Batch): Mat =
    if (m != "multivariate_normal") known
    else {
      val k0 = o.sc.get("kappa")
      val cnt = ri(b.x.length())
      mscale(outer(msub(meanOf(n, b), o.mu)), rdiv(rmul(k0, cnt), radd(k0, cnt)))
    }

  // ---------------------------------------------------------------- actions
  pure def genBatch(m: str, n: int, w: int, k: int, empty: bool): Batch = {
    val rows1 = if (empty) 0 else rnd(w, k, 4) + 1
    { x: toList(0.to(rows1 - 1).mapBy(i => genRow(n, w, k + 100 * i + 10))),
      y: toList(0.to(rows1 - 1).mapBy(i => valueOf("mod0", w, k + 100 * i + 50, false))),
      m: toList(0.to(rows1 - 1).mapBy(i => if (gaussian(m)) pick(w, k + 100 * i + 60, [1, 1, 2, 10, 1000]) else 1)) }
  }
  pure def genKnown(m: str, n: int, w: int): Mat =
    if (gaussian(m)) genSpd(n, w, 5000) else if (m == "multivariate_normal_known_mean") genVec(n, w, 5000) else noMat

  action init = {
    nondet w = 0.to(bigW).oneOf()
    val m = pick(w, 1, MODELS)
    val n = pick(w, 2, DIMS)
    all {
      model' = m, p' = n,
      pool' = [genObj(priorClass(m), n, w)],
      history' = [{ batch: noBatch, known: genKnown(m, n, w) }],
      op' = noOp.with("act", "prior").with("dst", 0).with("form", rnd(w, 3, 12)),
    }
  }
  def beliefs: List[int] = pool.indices().filter(i => pool[i].cls == priorClass(model) and not(Set("marginal", "repeated").contains(pool[i].kind))).fold([], (acc, i) => acc.append(i))
  def source(w: int): int = {
    val bs = beliefs
    if (rnd(w, 11, 4) > 0) bs[bs.length() - 1] else pick(w, 12, bs)
  }
  action push(o: Obj, b: Batch, k: Mat): bool = all {
    model' = model, p' = p, pool' = pool.append(o), history' = history.append({ batch: b, known: k }),
  }

  action learnBatch(w: int, empty: bool): bool = {
    val src = source(w)
    val o = pool[src]
    val known = if (VARY_KNOWN and rnd(w, 20, 2) == 0) genKnown(model, p, w) else history[0].known
    val b = genBatch(model, p, w, 3000, empty)
    val u = update(model, p, o, known, b)
    all {
      push({ kind: "belief", cls: o.cls, parent: src, mu: u.mu, mat: u.mat, sc: u.sc, truth: learnAll(model, known, o.truth, b) }, b, known),
      op' = noOp.with("act", "update").with("fn", model).with("src", src).with("dst", pool.length()).with("batch", b)
            .with("known", reported(model, p, o, known, b)).with("xbar", meanOf(p, b)).with("form", rnd(w, 3, 12)),
    }
  }
  pure def learns(m: str): bool = not(Set("none:nw", "none:t", "none:ig").contains(m))
  action learn = { nondet w = 0.to(bigW).oneOf() all { OPS.contains("update"), learns(model), learnBatch(w, false) } }
  /// (with both mean and covariance unknown, the data are a matrix with a mean)
  action learnNothing = {
    nondet w = 0.to(bigW).oneOf()
    all { OPS.contains("empty"), learns(model), learnBatch(w, true) }
  }

  def path(i: int): List[int] =
    range(0, 12).foldl([i], (acc, _) => if (pool[acc[0]].parent < 0) acc else [pool[acc[0]].parent].concat(acc))
  def steps(i: int): List[int] = { val q = path(i) q.slice(1, q.length()) }

  /// One update with everything a belief has seen, in another order.
  action joint = {
    nondet w = 0.to(bigW).oneOf()
    val i = source(w)
    val ss = steps(i)
    val b = ss.foldl(noBatch, (acc, j) => {
      val c = history[j].batch
      { x: lrev(c.x).concat(acc.x), y: lrev(c.y).concat(acc.y), m: lrev(c.m).concat(acc.m) } })
    val known = history[0].known
    val u = update(model, p, pool[0], known, b)
    all {
      OPS.contains("joint"), learns(model), ss.length() > 1,
      b.x.length() > 0,
      ss.indices().forall(j => pool[ss[j]].kind == "belief" and history[ss[j]].known == known),
      push({ kind: "joint", cls: pool[0].cls, parent: 0, mu: u.mu, mat: u.mat, sc: u.sc, truth: learnAll(model, known, pool[0].truth, b) }, b, known),
      op' = noOp.with("act", "joint").with("fn", model).with("src", i).with("dst", pool.length()).with("batch", b)
            .with("known", reported(model, p, pool[0], known, b)).with("xbar", meanOf(p, b)).with("form", rnd(w, 3, 12)),
    }
  }
  /// The batches on the path from the prior in another order.
  action reorder = {
    nondet w = 0.to(bigW).oneOf()
    val i = source(w)
    val ss = steps(i)
    val n = ss.length()
    val rot = if (n == 0) [] else toList(0.to(n - 1).mapBy(j => ss[(j + rnd(w, 31, 12)) % n]))
    val ord = if (rnd(w, 32, 2) == 0) rot else lrev(rot)
    all {
      OPS.contains("reorder"), learns(model), n >= 2, ss.indices().forall(j => pool[ss[j]].kind == "belief"),
      push(pool[i].with("kind", "reordered").with("parent", 0), history[i].batch, history[i].known),
      op' = noOp.with("act", "reorder").with("fn", model).with("src", i).with("dst", pool.length()).with("order", ord),
    }
  }

  // ---- prediction ----
  pure def predClass(m: str): str = if (gaussian(m)) "MultivariateNormal" else "MultivariateStudentT"
  pure def scaleFor(n: int, k: Kern): Mat = if (n == 0) noMat else msub(k.lam, mscale(outer(k.h), rinv(k.c)))
  pure def rateFor(k: Kern): Rat = rsub(k.c, rmul(half, quad(minv(k.lam), k.h)))
  /// Marginal likelihood of a future observation (for the regression: of the
  /// responses at a design), from the ghost kernel.
  pure def evidence(m: str, n: int, known: Mat, k: Kern, design: List[List[Rat]], at: List[Rat]): LD =
    if (m == "linear_regression") {
      val q = design.length()
      val k1 = learnAll(m, known, k, { x: design, y: at, m: toList(0.to(q - 1).mapBy(i => 1)) })
      { q: r1, e: r0,
        pw: [pw(rateFor(k), k.n), pw(rateFor(k1), rneg(k1.n)), pw(mdet(k.lam), half), pw(mdet(k1.lam), mk(-1, 2))],
        sp: [lgam(k1.n, r1), lgam(k.n, rm1), two_pi(mk(-q, 2))] }
    }
    else if (gaussian(m)) {
      val pr = precisionOf(m, known)
      val k1 = learnAll(m, known, k, { x: [at], y: [r0], m: [1] })
      { q: r1,
        e: rmul(half, rsub(rsub(quad(minv(k1.lam), k1.h), quad(minv(k.lam), k.h)), quad(pr, col(at)))),
        pw: [pw(mdet(pr), half), pw(mdet(k.lam), half), pw(mdet(k1.lam), mk(-1, 2))],
        sp: [two_pi(mk(-n, 2))] }
    }
    else {
      val k1 = learnAll(m, known, k, { x: [at], y: [r0], m: [1] })
      { q: r1, e: r0,
        pw: [pw(mdet(scaleFor(n, k)), rmul(half, k.n)), pw(mdet(scaleFor(n, k1)), rneg(rmul(half, k1.n))),
             pw(rdiv(k.c, k1.c), mk(n, 2))],
        sp: [lgam(rmul(half, k1.n), r1), lgam(rmul(half, rsub(k1.n, ri(n))), rm1), one_pi(mk(-n, 2))] }
    }
  pure def predictive(m: str, n: int, o: Obj, known: Mat, design: Mat): { mu: Mat, mat: Mat, sc: Row } =
    if (m == "linear_regression")
      { mu: mmul(design, o.mu),
        mat: mscale(madd(ident(rows(design)), mmul(design, mmul(o.mat, tr(design)))), rdiv(o.sc.get("beta"), o.sc.get("alpha"))),
        sc: Map("nu" -> rmul(r2, o.sc.get("alpha"))) }
    else if (m == "multivariate_normal_known_covariance") { mu: o.mu, mat: madd(o.mat, known), sc: Map() }
    else if (m == "multivariate_normal_known_precision") { mu: o.mu, mat: madd(o.mat, minv(known)), sc: Map() }
    else {
      val nu = rsub(radd(o.sc.get("nu"), r1), ri(n))
      val k = o.sc.get("kappa")
      { mu: o.mu, mat: mscale(o.mat, rdiv(radd(k, r1), rmul(k, nu))), sc: Map("nu" -> nu) }
    }
  action predict = {
    nondet w = 0.to(bigW).oneOf()
    val src = source(w)
    val o = pool[src]
    val known = if (VARY_KNOWN) genKnown(model, p, w) else history[0].known
    val q = 1 + rnd(w, 40, 3)
    val design = if (model == "linear_regression") toList(0.to(q - 1).mapBy(i => genRow(p, w, 4000 + 100 * i))) else []
    all {
      OPS.contains("predict"), learns(model), model != "multivariate_normal_known_mean",
      {
        val len = if (model == "linear_regression") q else p
        val u = predictive(model, p, o, known, matOf(design))
        val pts = toList(0.to(3).mapBy(j => {
          val at = toList(0.to(len - 1).mapBy(i => valueOf("mod0", w, 7000 + 100 * j + i, false)))
          { at: at, mat: noMat, ld: evidence(model, p, known, o.truth, design, at) }
        }))
        all {
          push({ kind: "predictive", cls: predClass(model), parent: src, mu: u.mu, mat: u.mat, sc: u.sc,
                 truth: if (gaussian(model)) kern("MultivariateNormal", u.mu, u.mat, u.sc) else noKern },
               { x: design, y: [], m: [] }, known),
          op' = noOp.with("act", "predict").with("fn", model).with("src", src).with("dst", pool.length())
                .with("batch", { x: design, y: [], m: [] }).with("known", known).with("pts", pts).with("form", rnd(w, 3, 12)),
        }
      }
    }
  }
  pure def matOf(l: List[List[Rat]]): Mat = {
    val d = l.foldl(1, (s, row) => row.foldl(s, (t, x) => t * x.d / gcd(t, x.d)))
    { m: toList(l.indices().mapBy(i => toList(l[i].indices().mapBy(j => l[i][j].n * (d / l[i][j].d))))), d: d }
  }

  // ---- the scipy view ----
  pure def lgamP(n: int, a: Rat, s: Rat): List[Sp] =
    [one_pi(rmul(s, mk(n * (n - 1), 4)))].concat(toList(0.to(n - 1).mapBy(j => lgam(rsub(a, mk(j, 2)), s))))
  pure def densityAt(o: Obj, at: List[Rat], s: Mat): LD = {
    val n = rows(o.mat)
    if (o.cls == "MultivariateNormal")
      { q: r1, e: rmul(mk(-1, 2), quad(minv(o.mat), msub(col(at), o.mu))), pw: [pw(mdet(o.mat), mk(-1, 2))], sp: [two_pi(mk(-n, 2))] }
    else if (o.cls == "MultivariateStudentT") {
      val nu = o.sc.get("nu")
      val ex = rmul(half, radd(nu, ri(n)))
      { q: r1, e: r0,
        pw: [pw(mdet(o.mat), mk(-1, 2)), pw(radd(r1, rdiv(quad(minv(o.mat), msub(col(at), o.mu)), nu)), rneg(ex)), pw(nu, mk(-n, 2))],
        sp: [lgam(ex, r1), lgam(rmul(half, nu), rm1), one_pi(mk(-n, 2))] }
    }
    else if (o.cls == "InverseWishart") {
      val nu = o.sc.get("nu")
      { q: r1, e: rmul(mk(-1, 2), trace(mmul(o.mat, minv(s)))),
        pw: [pw(mdet(o.mat), rmul(half, nu)), pw(mdet(s), rneg(rmul(half, radd(nu, ri(n + 1))))), pw(r2, rneg(rmul(nu, mk(n, 2))))],
        sp: lgamP(n, rmul(half, nu), rm1) }
    }
    else {
      val nu = o.sc.get("nu")
      { q: r1, e: rmul(mk(-1, 2), trace(mmul(minv(o.mat), s))),
        pw: [pw(mdet(o.mat), rneg(rmul(half, nu))), pw(mdet(s), rmul(half, rsub(nu, ri(n + 1)))), pw(r2, rneg(rmul(nu, mk(n, 2))))],
        sp: lgamP(n, rmul(half, nu), rm1) }
    }
  }
  pure def hasView(cls: str): bool = Set("MultivariateNormal", "MultivariateStudentT", "InverseWishart", "Wishart").contains(cls)
  action read = {
    nondet w = 0.to(bigW).oneOf()
    val vs = pool.indices().filter(i => hasView(pool[i].cls) and pool[i].kind != "repeated").fold([], (acc, i) => acc.append(i))
    all {
      OPS.contains("read"), vs.length() > 0,
      {
        val i = if (rnd(w, 3, 2) == 0) vs[vs.length() - 1] else pick(w, 4, vs)
        val o = pool[i]
        val n = rows(o.mat)
        val pts = toList(0.to(3).mapBy(j => {
          val at = toList(0.to(n - 1).mapBy(t => valueOf("mod0", w, 7000 + 100 * j + t, false)))
          val s = genSpd(n, w, 8000 + 1000 * j)
          { at: at, mat: s, ld: densityAt(o, at, s) }
        }))
        all {
          model' = model, p' = p, pool' = pool, history' = history,
          op' = noOp.with("act", "read").with("src", i).with("pts", pts),
        }
      }
    }
  }
  /// A parameter is replaced in place.
  action reassign = {
    nondet w = 0.to(bigW).oneOf()
    val i = rnd(w, 3, pool.length())
    val o = pool[i]
    all {
      OPS.contains("assign"), hasView(o.cls), o.kind != "repeated", pool.indices().forall(j => pool[j].parent != i),
      {
        val n = rows(o.mat)
        val what = if (o.cls == "MultivariateNormal") pick(w, 4, ["mu", "mat"])
                   else if (o.cls == "MultivariateStudentT") pick(w, 4, ["mu", "mat", "nu"]) else pick(w, 4, ["mat", "nu"])
        val o2 = if (what == "mu") o.with("mu", genVec(n, w, 100))
                 else if (what == "mat") o.with("mat", genSpd(n, w, 200))
                 else o.with("sc", o.sc.put("nu", radd(ri(n - 1), valueOf("posm", w, 300, false))))
        all {
          model' = model, p' = p, history' = history,
          pool' = pool.replaceAt(i, o2.with("kind", "assigned").with("truth", kern(o2.cls, o2.mu, o2.mat, o2.sc))),
          op' = noOp.with("act", "assign").with("fn", what).with("src", i),
        }
      }
    }
  }

  // ---- marginals ----
  action marginalise = {
    nondet w = 0.to(bigW).oneOf()
    val vs = pool.indices().filter(i => Set("MultivariateNormal", "MultivariateStudentT").contains(pool[i].cls)
                                        and not(Set("marginal", "repeated").contains(pool[i].kind))).fold([], (acc, i) => acc.append(i))
    all {
      OPS.contains("index"), vs.length() > 0,
      {
        val i = if (rnd(w, 3, 2) == 0) vs[vs.length() - 1] else pick(w, 4, vs)
        val o = pool[i]
        val n = rows(o.mat)
        val k = genKey(w, n)
        val ok = inRange(n, k)
        val sel = if (ok) selected(n, k) else []
        val cls = if (k.kind != "int") o.cls else if (o.cls == "MultivariateNormal") "Normal" else "StudentT"
        all {
          not(ok) or sel.length() > 0,
          model' = model, p' = p,
          history' = if (ok) history.append({ batch: noBatch, known: noMat }) else history,
          pool' = if (ok) pool.append({ kind: if (sel.indices().exists(s => sel.indices().exists(t => s != t and sel[s] == sel[t]))) "repeated" else "marginal", cls: cls, parent: i, mu: subvec(o.mu, sel), mat: submat(o.mat, sel, sel),
                                         sc: o.sc, truth: noKern }) else pool,
          op' = noOp.with("act", "index").with("src", i).with("dst", if (ok) pool.length() else -1).with("key", k).with("ok", ok).with("order", sel),
        }
      }
    }
  }

  // ---- conversions and components ----
  pure def conversions(cls: str): List[str] =
    if (cls == "NormalInverseWishart") ["inverse_wishart"]
    else if (cls == "InverseWishart") ["from_inverse_wishart"]
    else if (cls == "NormalWishart") ["wishart"]
    else if (cls == "NormalInverseGamma") ["inverse_gamma"]
    else if (cls == "InverseGamma") ["from_inverse_gamma"]
    else []
  action convert = {
    nondet w = 0.to(bigW).oneOf()
    val i = rnd(w, 3, pool.length())
    val o = pool[i]
    all {
      OPS.contains("convert"), conversions(o.cls).length() > 0,
      {
        val c = conversions(o.cls)[0]
        val n = if (rows(o.mat) == 0) p else rows(o.mat)
        val o2 = if (c == "inverse_wishart") o.with("cls", "InverseWishart").with("sc", Map("nu" -> o.sc.get("nu")))
          else if (c == "from_inverse_wishart")
            o.with("cls", "NormalInverseWishart").with("mu", genVec(n, w, 100)).with("sc", o.sc.put("kappa", valueOf("posm", w, 303, false)))
          else if (c == "wishart") o.with("cls", "Wishart").with("sc", Map("nu" -> o.sc.get("nu")))
          else if (c == "inverse_gamma") o.with("cls", "InverseGamma")
          else o.with("cls", "NormalInverseGamma").with("mu", genVec(n, w, 100)).with("mat", genSpd(n, w, 200))
        all {
          push(o2.with("kind", "converted").with("parent", i).with("truth", kern(o2.cls, o2.mu, o2.mat, o2.sc)), noBatch, noMat),
          op' = noOp.with("act", "convert").with("fn", c).with("src", i).with("dst", pool.length()).with("form", rnd(w, 3, 12)),
        }
      }
    }
  }

  action step = any { learn, learnNothing, joint, reorder, predict, read, reassign, marginalise, convert }

  // ---------------------------------------------------------------- properties
  /// The newest member describes prior times likelihood.
  val bayes = {
    val o = pool[pool.length() - 1]
    Set("belief", "joint", "reordered").contains(o.kind) implies kernEq(kern(o.cls, o.mu, o.mat, o.sc), o.truth)
  }
  val batching = op.act == "joint" implies {
    val a = pool[op.src] val b = pool[op.dst]
    meq(a.mat, b.mat) and (a.cls == "InverseWishart" or meq(a.mu, b.mu)) and a.sc == b.sc
  }
  val nothing = (op.act == "update" and op.batch.x.length() == 0) implies {
    val a = pool[op.src] val b = pool[op.dst]
    meq(a.mat, b.mat) and (a.cls == "InverseWishart" or meq(a.mu, b.mu)) and a.sc == b.sc
  }
  val admissible = {
    val o = pool[pool.length() - 1]
    o.cls == "InverseGamma" or Set("marginal", "repeated").contains(o.kind) or
      (symmetric(o.mat) and rpos(mdet(o.mat)) and o.sc.keys().forall(k => rpos(o.sc.get(k))))
  }
  /// The evidence of two outcomes has the ratio the predictive family gives.
  val predictiveLaw = op.act == "predict" implies {
    val o = pool[op.dst]
    val a = op.pts[0]
    op.pts.indices().forall(j => {
      val b = op.pts[j]
      val da = densityAt(o, a.at, noMat)
      val db = densityAt(o, b.at, noMat)
      if (gaussian(model)) req(rsub(a.ld.e, b.ld.e), rsub(da.e, db.e))
      else {
        // the second power carries the outcome, with the same exponent
        val r1_ = rdiv(a.ld.pw[1].b, b.ld.pw[1].b)
        val r2_ = rdiv(da.pw[1].b, db.pw[1].b)
        req(r1_, r2_) and req(a.ld.pw[1].x, da.pw[1].x)
      }
    })
  }
  /// Integrating out the other components: Schur complement of the precision.
  val marginal = (op.act == "index" and op.ok) implies {
    val o = pool[op.src]
    val n = rows(o.mat)
    val sel = op.order
    val rest = range(0, n).foldl([], (acc, j) => if (sel.indices().exists(t => sel[t] == j)) acc else acc.append(j))
    val distinct = rest.length() + sel.length() == n
    val l = minv(o.mat)
    distinct implies (
      if (rest.length() == 0) meq(minv(pool[op.dst].mat), submat(l, sel, sel))
      else meq(minv(pool[op.dst].mat),
               msub(submat(l, sel, sel), mmul(submat(l, sel, rest), mmul(minv(submat(l, rest, rest)), submat(l, rest, sel))))))
  }
  /// A component is what is left when the mean is integrated out.
  val component = op.act == "convert" implies {
    val joint1 = if (Set("from_inverse_wishart", "from_inverse_gamma").contains(op.fn)) pool[op.dst] else pool[op.src]
    val part = if (Set("from_inverse_wishart", "from_inverse_gamma").contains(op.fn)) pool[op.src] else pool[op.dst]
    val k = kern(joint1.cls, joint1.mu, joint1.mat, joint1.sc)
    if (joint1.cls == "NormalInverseGamma")
      req(rateFor(k), part.sc.get("beta")) and req(k.n, part.sc.get("alpha"))
    else
      meq(scaleFor(rows(joint1.mat), k), kern(part.cls, part.mu, part.mat, part.sc).lam) and req(k.n, part.sc.get("nu"))
  }

  val inv = and { bayes, batching, nothing, admissible, predictiveLaw, marginal, component }
}
