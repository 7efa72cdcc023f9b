// -*- mode: quint -*-
/// Sampling: what a draw depends on, what it looks like, and its law.
///
/// A source of randomness is a kind, a seed and the history of draws made from
/// it; an integer is a source without history. The output of a draw is a function
/// of the parameters of the distribution, the request and the state of the source,
/// and of nothing else: two draws agree exactly when these three agree. A draw
/// advances its own source and no other; in particular the global source moves
/// only when no source is named.
module sampling {
  import rat.* from "./rat"
  import mat.* from "./mat"
  import models.* from "./models"
  import args.* from "./args"

  const CLASSES: List[str]
  const DIMS: List[List[int]]
  const OPS: List[str]

  /// dims: lanes ([] for scalars); p: dimension of a multivariate component, 0 if none.
  type Obj = { cls: str, dims: List[int], args: List[Arg], p: int, mu: Mat, mat: Mat }
  type Req = { obj: Obj, fn: str, sized: bool, size: List[int], both: bool }
  type Source = { kind: str, seed: int, hist: List[Req] }
  type Out = { req: Req, src: Source }
  /// What the samples have to look like: shapes of the sample and of the variance.
  /// `axes`: how many trailing axes make up one sample (of the lane); `separate`:
  /// the samples, of whatever position and lane, are draws of their own, so no two are equal.
  type Look = { sample: List[int], variance: List[int], axes: List[int], separate: bool }
  /// The law of a request, by lane: conditional factor, marginal of the variance,
  /// exact probabilities of exceeding points.
  type Law = { factor: List[Rat], matrix: Mat, marginal: List[Row], at: List[Rat], tail: List[List[Rat]] }
  type Op = { act: str, obj: int, src: int, kind: str, seed: int, reqs: List[Req], looks: List[Look], ids: List[int], same: List[List[int]],
              differ: List[int], moved: bool, field: str, law: Law, way: str }

  var pool: List[Obj]
  var gens: List[Source]
  var outs: List[Out]
  var op: Op

  pure val noMat: Mat = { m: [], d: 1 }
  pure val noLaw: Law = { factor: [], matrix: noMat, marginal: [], at: [], tail: [] }
  pure val noOp: Op = { act: "start", obj: -1, src: -1, kind: "", seed: 0, reqs: [], looks: [], ids: [], same: [], differ: [], moved: false,
                        field: "", law: noLaw, way: "" }

  // ------------------------------------------------------------ objects
  pure def matrixClass(c: str): bool = Set("Regression", "NormalWishart", "NormalInverseWishart").contains(c)
  pure def fieldsOf(c: str): List[Field] =
    if (c == "NormalInverseGamma") [fd("mu", "real"), fd("nu", "spread"), fd("alpha", "shape"), fd("beta", "spread")]
    else if (c == "NormalGamma") [fd("mu", "real"), fd("lam", "spread"), fd("alpha", "shape"), fd("beta", "spread")]
    else if (c == "Regression") [fd("alpha", "shape"), fd("beta", "spread")]
    else if (c == "NormalWishart") [fd("lam", "spread"), fd("nu", "shape")]
    else if (c == "NormalInverseWishart") [fd("kappa", "spread"), fd("nu", "shape")]
    else if (c == "BetaGeometric") [fd("alpha", "shape"), fd("beta", "shape"), fd("one_start", "bit")]
    else if (c == "CompoundGamma") [fd("alpha", "ishape"), fd("beta", "ishape"), fd("lam", "spread")]
    else [fd("a0", "shape"), fd("a1", "shape"), fd("a2", "shape"), fd("a3", "shape")]
  pure def layoutOf(d: List[int]): Layout =
    if (d.length() == 0) { r: 1, c: 1, arr: false }
    else if (d.length() == 1) { r: 1, c: d[0], arr: true }
    else { r: d[0], c: d[1], arr: true }
  pure def lanesIn(o: Obj): int = lanesOf(layoutOf(o.dims))
  pure def rowAt(o: Obj, l: int): Row = rowOf(o.args, l)

  pure def genArg(c: str, f: Field, w: int, k: int, d: List[int], must: bool): Arg = {
    val lay = layoutOf(d)
    // the number of lanes of a stacked Dirichlet is the number of its rows
    val role = if (f.name == "one_start" or matrixClass(c)) "const"
               else if (c == "Dirichlet" or must) "full" else pickRole(w, k, lay)
    // its rows may be alike
    val pattern = if (c == "Dirichlet" and rnd(w, 90, 3) == 0) "const" else role
    mkArg(f.name, role, w, k + 1, toList(0.to(lanesOf(lay) - 1).mapBy(l =>
      valueOf(f.dom, w, k + 100 + idx(pattern, lay, l), rnd(w, k + 2, 3) == 0))))
  }
  pure def genObj(c: str, w: int): Obj = {
    val d = if (matrixClass(c)) []
            else if (c == "Dirichlet") [1 + rnd(w, 2, 3)]
            else pick(w, 1, DIMS)
    val fs = fieldsOf(c)
    val must = rnd(w, 3, fs.length())
    val p = if (matrixClass(c)) 1 + rnd(w, 4, 3) else 0
    val base: List[Arg] = toList(0.to(fs.length() - 1).mapBy(i =>
      genArg(c, fs[i], w, 1000 * (i + 1), d, d.length() > 0 and (i == must or (i == 0 and fs[must].name == "one_start")))))
    // degrees of freedom exceed the dimension less one
    val args = toList(base.indices().mapBy(i =>
      if (p > 0 and base[i].name == "nu") base[i].with("vals", [radd(base[i].vals[0], ri(p - 1))]) else base[i]))
    { cls: c, dims: d, args: args, p: p,
      mu: if (p > 0) col(toList(0.to(p - 1).mapBy(i => valueOf("mod0", w, 500 + i, false)))) else noMat,
      mat: if (p > 0) genSpd(p, w, 600) else noMat }
  }

  // ------------------------------------------------------------ requests
  pure def fnsOf(c: str): List[str] =
    if (Set("BetaGeometric", "CompoundGamma", "Dirichlet").contains(c)) ["rvs"]
    else if (c == "NormalInverseGamma" or c == "NormalGamma" or c == "Regression") ["sample_mean", "sample_beta", "sample_variance"]
    else ["sample_mean", "sample_mean", "sample_variance"]
  pure def genReq(o: Obj, w: int): Req = {
    val fn = pick(w, 11, fnsOf(o.cls))
    val both = fn != "rvs" and fn != "sample_variance" and rnd(w, 12, 2) == 0
    val s = pick(w, 13, [1, 1, 2, 3, 7, 7, 12, 1500])
    if (fn == "rvs" and o.cls != "Dirichlet") {
      val k = rnd(w, 14, 5)
      if (k == 0) { obj: o, fn: fn, sized: false, size: [], both: false }
      else if (k == 1 and o.dims.length() == 0) { obj: o, fn: fn, sized: true, size: [pick(w, 15, [0, 1, 5])], both: false }
      else if (k == 2) { obj: o, fn: fn, sized: true, size: [s].concat(o.dims.foldl([], (acc, x) => acc.append(1))), both: false }
      else if (k == 3 and o.dims.length() > 0) { obj: o, fn: fn, sized: true, size: o.dims, both: false }
      else { obj: o, fn: fn, sized: true, size: [s].concat(o.dims), both: false }
    }
    // one sample unless asked otherwise
    else if ((o.cls == "NormalWishart" or (o.cls == "Dirichlet" and o.dims.length() > 0)) and rnd(w, 14, 6) == 0)
      { obj: o, fn: fn, sized: false, size: [1], both: both }
    else if (o.dims.length() > 0 and o.cls != "Dirichlet") { obj: o, fn: fn, sized: true, size: [s].concat(o.dims), both: both }
    else { obj: o, fn: fn, sized: true, size: [s], both: both }
  }
  /// Axis i of a shape seen as one of n axes.
  pure def axis(l: List[int], n: int, i: int): int = if (i < n - l.length()) 1 else l[i - (n - l.length())]
  pure def look(q: Req): Look = {
    val o = q.obj
    if (o.cls == "BetaGeometric" or o.cls == "CompoundGamma") {
      // the request broadcast against the lanes
      val n = if (q.size.length() > o.dims.length()) q.size.length() else o.dims.length()
      { sample: toList(0.to(n - 1).mapBy(i => if (axis(q.size, n, i) == 1) axis(o.dims, n, i) else axis(q.size, n, i))),
        variance: [], axes: [0], separate: continuous(o.cls) }
    }
    else if (o.cls == "Dirichlet") { sample: o.dims.concat(q.size).append(4), variance: [], axes: [1], separate: true }
    else {
      val v = if (o.cls == "NormalWishart" or o.cls == "NormalInverseWishart") q.size.concat([o.p, o.p]) else q.size
      // a single regression coefficient is a scalar
      val m = if (o.p == 0 or (o.cls == "Regression" and o.p == 1)) q.size else q.size.append(o.p)
      val va = v.length() - q.size.length()
      val ma = m.length() - q.size.length()
      if (q.fn == "sample_variance") { sample: v, variance: [], axes: [va], separate: true }
      else { sample: m, variance: if (q.both) v else [], axes: [ma, va], separate: true }
    }
  }
  pure def empty(q: Req): bool = q.size.indices().exists(i => q.size[i] == 0)
  /// Outputs of continuous laws differ with probability one when anything they depend on differs.
  pure def continuous(c: str): bool = c != "BetaGeometric"

  // ------------------------------------------------------------ laws
  pure val points: List[int] = [1, 2, 3, 5, 8, 13, 21]
  pure def lawOf(o: Obj): Law = {
    val lanes = toList(0.to(lanesIn(o) - 1).mapBy(l => rowAt(o, l)))
    if (o.cls == "BetaGeometric")
      // P(X > t) for trials counted from one: the mixture of (1-p)^t over the beta
      { ...noLaw, marginal: lanes, at: toList(points.indices().mapBy(i => ri(points[i]))),
        tail: toList(lanes.indices().mapBy(l => toList(points.indices().mapBy(i =>
          rdiv(rising(lanes[l].get("beta"), points[i] + (if (req(lanes[l].get("one_start"), r1)) 0 else 1)),
               rising(radd(lanes[l].get("alpha"), lanes[l].get("beta")), points[i] + (if (req(lanes[l].get("one_start"), r1)) 0 else 1))))))) }
    else if (o.cls == "CompoundGamma") {
      // with u = x / (x + lam): P(X > x) = sum_{j < a} C(a+b-1, j) u^j (1-u)^(a+b-1-j)
      val us = [mk(1, 8), mk(1, 4), half, mk(3, 4), mk(7, 8)]
      { ...noLaw, marginal: lanes, at: us,
        tail: toList(lanes.indices().mapBy(l => {
          val a = lanes[l].get("alpha").n
          val n = a + lanes[l].get("beta").n - 1
          toList(us.indices().mapBy(i => range(0, a).foldl(r0, (s, j) =>
            radd(s, rmul(ri(choose(n, j)), rmul(rpow(us[i], j), rpow(rsub(r1, us[i]), n - j)))))))
        })) }
    }
    else if (o.cls == "Dirichlet") { ...noLaw, marginal: lanes }
    else if (o.cls == "NormalInverseGamma")
      { ...noLaw, marginal: lanes, factor: toList(lanes.indices().mapBy(l => rinv(lanes[l].get("nu")))) }
    else if (o.cls == "NormalGamma")
      { ...noLaw, marginal: lanes, factor: toList(lanes.indices().mapBy(l => rinv(lanes[l].get("lam")))) }
    else if (o.cls == "Regression") { ...noLaw, marginal: lanes, factor: [r1], matrix: o.mat }
    else if (o.cls == "NormalWishart") { ...noLaw, marginal: lanes, factor: [rinv(lanes[0].get("lam"))], matrix: o.mat }
    else { ...noLaw, marginal: lanes, factor: [rinv(lanes[0].get("kappa"))], matrix: o.mat }
  }

  // ------------------------------------------------------------ behaviour
  pure val KINDS: List[str] = ["Generator", "RandomState", "Generator", "PCG64DXSM"]
  action init = {
    nondet w = 0.to(bigW).oneOf()
    all {
      pool' = [genObj(pick(w, 5, CLASSES), w)],
      gens' = [{ kind: "global", seed: rnd(w, 6, 4), hist: [] }],
      outs' = [],
      op' = noOp.with("seed", rnd(w, 6, 4))
    }
  }
  /// What the specification says about one draw, given the draws so far.
  pure def sameAs(old: List[Out], o: Out): List[int] =
    old.indices().fold([], (acc, j) => if (old[j] == o) acc.append(j) else acc)
  /// Sources of one kind that are certainly in different states: another seed, or
  /// one has drawn what the other has drawn and then more.
  pure def further(a: Source, b: Source): bool = {
    val n = a.hist.length()
    n < b.hist.length() and b.hist.slice(0, n) == a.hist
      and b.hist.slice(n, b.hist.length()).indices().exists(i => not(empty(b.hist[n + i])))
  }
  pure def apart(a: Source, b: Source): bool =
    a.kind == b.kind and (a.seed != b.seed or further(a, b) or further(b, a))
  pure def differing(old: List[Out], o: Out): List[int] =
    old.indices().fold([], (acc, j) =>
      if (old[j].req == o.req and continuous(o.req.obj.cls) and not(empty(o.req)) and apart(old[j].src, o.src)) acc.append(j) else acc)

  action create = {
    nondet w = 0.to(bigW).oneOf()
    all {
      OPS.indices().exists(i => OPS[i] == "create"), pool.length() < 5,
      pool' = pool.append(genObj(pick(w, 5, CLASSES), w)),
      gens' = gens, outs' = outs,
      op' = noOp.with("act", "create").with("obj", pool.length())
    }
  }
  /// A parameter is reassigned; later draws follow it.
  action reassign = {
    nondet w = 0.to(bigW).oneOf()
    val i = rnd(w, 21, pool.length())
    val o = pool[i]
    val fs = fieldsOf(o.cls)
    val j = rnd(w, 22, fs.length())
    val a = o.args[j]
    val g = genArg(o.cls, fs[j], w, 7000, o.dims, a.role == "full")
    // keep the degrees of freedom admissible and the lanes as they are
    val v = if (o.p > 0 and a.name == "nu") g.with("vals", [radd(g.vals[0], ri(o.p - 1))]) else g
    all {
      OPS.indices().exists(t => OPS[t] == "reassign"), o.cls != "Dirichlet",
      pool' = pool.replaceAt(i, o.with("args", o.args.replaceAt(j, v))),
      gens' = gens, outs' = outs,
      op' = noOp.with("act", "reassign").with("obj", i).with("field", a.name)
    }
  }
  action newGenerator = {
    nondet w = 0.to(bigW).oneOf()
    all {
      gens.length() < 5,
      pool' = pool, outs' = outs,
      gens' = gens.append({ kind: pick(w, 31, KINDS), seed: rnd(w, 32, 2), hist: [] }),
      op' = noOp.with("act", "newGenerator").with("src", gens.length())
    }
  }
  action seedGlobal = {
    nondet w = 0.to(bigW).oneOf()
    all {
      pool' = pool, outs' = outs,
      gens' = gens.replaceAt(0, { kind: "global", seed: rnd(w, 33, 3), hist: [] }),
      op' = noOp.with("act", "seedGlobal").with("src", 0).with("seed", rnd(w, 33, 3))
    }
  }
  /// One draw: a new request or an earlier one again.
  action draw = {
    nondet w = 0.to(bigW).oneOf()
    val q = if (outs.length() > 0 and rnd(w, 41, 2) == 0) outs[rnd(w, 42, outs.length())].req
            else genReq(pool[rnd(w, 43, pool.length())], w)
    val byInt = rnd(w, 44, 5) < 2
    val g = rnd(w, 45, gens.length())
    val src: Source = if (byInt) { kind: pick(w, 46, ["int", "int", "npint"]), seed: rnd(w, 47, 2), hist: [] } else gens[g]
    val o: Out = { req: q, src: src }
    all {
      pool' = pool,
      gens' = if (byInt) gens else gens.replaceAt(g, src.with("hist", src.hist.append(q))),
      outs' = outs.append(o),
      op' = noOp.with("act", "draw").with("src", if (byInt) -1 else g).with("kind", src.kind).with("seed", src.seed)
        .with("reqs", [q]).with("looks", [look(q)]).with("ids", [outs.length()]).with("same", [sameAs(outs, o)])
        .with("differ", differing(outs, o)).with("moved", not(empty(q)))
    }
  }
  /// A source with the seed and the history of another one, made by repeating its draws.
  action rerun = {
    nondet w = 0.to(bigW).oneOf()
    val g = 1 + rnd(w, 51, gens.length() - 1)
    val s = gens[g]
    val fresh: List[Out] = toList(s.hist.indices().mapBy(i => { req: s.hist[i], src: s.with("hist", s.hist.slice(0, i)) }))
    all {
      gens.length() > 1, gens.length() < 6, s.hist.length() > 0,
      pool' = pool,
      gens' = gens.append(s),
      outs' = outs.concat(fresh),
      op' = noOp.with("act", "rerun").with("src", gens.length()).with("kind", s.kind).with("seed", s.seed).with("reqs", s.hist)
        .with("looks", toList(s.hist.indices().mapBy(i => look(s.hist[i]))))
        .with("ids", toList(s.hist.indices().mapBy(i => outs.length() + i)))
        .with("same", toList(fresh.indices().mapBy(i => sameAs(outs, fresh[i])))).with("moved", true)
    }
  }
  /// Many samples of one object, from one request or many: they follow its law.
  action law = {
    nondet w = 0.to(bigW).oneOf()
    val i = rnd(w, 61, pool.length())
    all {
      OPS.indices().exists(t => OPS[t] == "law"),
      pool' = pool, gens' = gens, outs' = outs,
      op' = noOp.with("act", "law").with("obj", i).with("law", lawOf(pool[i])).with("seed", rnd(w, 62, 1000))
        .with("kind", pick(w, 63, ["int", "int", "npint", "Generator", "RandomState"]))
        .with("way", pick(w, 64, ["once", "once", "chunks", "single"]))
        .with("field", pick(w, 65, fnsOf(pool[i].cls)))
    }
  }
  action step = any { create, reassign, newGenerator, seedGlobal, draw, draw, draw, rerun, law, law }

  // ------------------------------------------------------------ invariants
  /// A rerun reproduces what it repeats: each of its outputs equals an earlier one.
  val reproducible = op.act == "rerun" implies op.same.indices().forall(i => op.same[i].length() > 0)
  /// No output has to be both equal to and different from an earlier one.
  val consistent = op.act == "draw" implies
    op.differ.indices().forall(j => not(op.same[0].indices().exists(k => op.same[0][k] == op.differ[j])))
  /// Agreement of outputs is an equivalence.
  val equivalence = op.act == "draw" implies op.same[0].indices().forall(i => op.same[0].indices().forall(j =>
    outs[op.same[0][i]] == outs[op.same[0][j]]))
  /// Exceedance probabilities are probabilities, and decrease.
  val probabilities = op.act == "law" implies op.law.tail.indices().forall(l => op.law.tail[l].indices().forall(i =>
    rle(r0, op.law.tail[l][i]) and rle(op.law.tail[l][i], r1) and (i == 0 or rle(op.law.tail[l][i], op.law.tail[l][i - 1]))))
  val inv = and { reproducible, consistent, equivalence, probabilities }
}
