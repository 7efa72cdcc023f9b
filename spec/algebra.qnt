// -*- mode: quint -*-
/// Distribution objects as values: a pool of objects that are constructed
/// (directly or by an alternative constructor), read through their scipy view,
/// reassigned in place, indexed, converted, scaled and added.
module algebra {
  import rat.* from "./rat"
  import families.* from "./families"
  import models.* from "./models"
  import args.* from "./args"
  import keys.* from "./keys"
  import objects.* from "./objects"

  const CLASSES: List[str]
  const DIMS: List[List[int]]
  const OPS: Set[str]

  type Pt = { at: List[Row], ld: List[LD] }
  type Op = { act: str, ctor: str, src: int, src2: int, dst: int, field: str, side: str, args: List[Arg],
              key: Key, ok: bool, pts: List[Pt], mv: List[List[Rat]], tail: List[Rat] }

  var pool: List[Obj]
  var op: Op

  pure val noOp: Op = { act: "", ctor: "", src: -1, src2: -1, dst: -1, field: "", side: "", args: [],
                        key: noKey, ok: true, pts: [], mv: [], tail: [] }

  // ---------------------------------------------------------------- points
  pure def pointsFor(cls: str, p: Row, w: int, k: int): Row =
    if (Set("Binomial", "BetaBinomial").contains(cls)) {
      val n = p.get("n")
      Map("x" -> pick(w, k, [r0, r1, r2, n, rsub(n, r1), radd(n, r1), rm1, ri(n.n / 2), half, mk(3, 2)]))
    }
    else if (cls == "Hypergeometric")
      Map("x" -> pick(w, k, [r0, r1, r2, ri(5), p.get("n"), p.get("k"), rm1, ri(7), half]))
    else if (isDiscrete(cls)) Map("x" -> pick(w, k, [r0, r1, r2, ri(3), ri(5), ri(12), ri(40), ri(171), rm1, ri(-5), half, mk(7, 2)]))
    else if (cls == "Beta") Map("x" -> pick(w, k, [mk(1, 64), mk(1, 8), mk(3, 8), half, mk(7, 8), mk(127, 128), mk(-1, 4), mk(5, 4), r2]))
    else if (cls == "Uniform")
      Map("x" -> pick(w, k, [rsub(p.get("low"), r1), radd(p.get("low"), mk(1, 8)), rmul(half, radd(p.get("low"), p.get("high"))),
                             rsub(p.get("high"), mk(1, 8)), radd(p.get("high"), r1), ri(-100), ri(1000)]))
    else if (cls == "Pareto")
      Map("x" -> rmul(p.get("x_m"), pick(w, k, [mk(1, 8), half, mk(7, 8), mk(9, 8), r2, ri(10), rm1])))
    else if (Set("Normal", "StudentT").contains(cls))
      Map("x" -> pick(w, k, [p.get("mu"), radd(p.get("mu"), r1), rsub(p.get("mu"), mk(5, 2)), r0, ri(10), ri(-3), radd(p.get("mu"), mk(1, 8))]))
    else if (cls == "LogNormal")
      (if (rnd(w, k, 6) == 0) Map("x" -> pick(w, k + 1, [rm1, mk(-1, 4), ri(-7)]))
       else Map("lnx" -> pick(w, k + 1, [p.get("mu"), r0, r1, rm1, mk(5, 2), radd(p.get("mu"), mk(1, 4))])))
    else if (cls == "VonMises") dirs[rnd(w, k, dirs.length())]
    else if (cls == "Weibull") {
      // x^beta exactly: beta is 1/2, 1, 2 or 3 and x a square
      val u = pick(w, k, [mk(1, 2), r1, mk(3, 2), r2, rm1])
      val b = p.get("beta")
      if (u.n < 0) Map("x" -> u, "z" -> r0)
      else Map("x" -> rsq(u), "z" -> rpow(u, rmul(r2, b).n))
    }
    else if (cls == "Dirichlet")
      pick(w, k, [Map("p0" -> mk(1, 4), "p1" -> mk(1, 4), "p2" -> mk(1, 4), "p3" -> mk(1, 4)),
                  Map("p0" -> mk(1, 8), "p1" -> mk(1, 2), "p2" -> mk(1, 8), "p3" -> mk(1, 4)),
                  Map("p0" -> mk(1, 64), "p1" -> mk(1, 64), "p2" -> mk(15, 16), "p3" -> mk(1, 32))])
    else if (cls == "Multinomial" or cls == "DirichletMultinomial")
      range(0, p.get("n").n).foldl(Map("x0" -> r0, "x1" -> r0, "x2" -> r0, "x3" -> r0), (acc, t) => {
        val c = xKey(pick(w, k + 17 * t, ["0", "1", "2", "3"]))
        acc.set(c, radd(acc.get(c), r1))
      })
    // the edge of the support, where the density is finite
    else if ((cls == "Exponential" or cls == "Lomax" or (cls == "CompoundGamma" and rle(r1, p.get("alpha")))) and rnd(w, k + 3, 8) == 0)
      Map("x" -> r0)
    else Map("x" -> pick(w, k, [mk(1, 8), half, r1, mk(5, 2), ri(9), ri(100), ri(100000), mk(1, 10000), rm1, mk(-1, 8)]))

  pure def readable(o: Obj): bool =
    not(Set("NormalInverseGamma", "NormalGamma").contains(o.cls))
      and not(o.cls == "Dirichlet" and o.dims.length() > 1) and lanesIn(o.dims) > 0

  // ---------------------------------------------------------------- actions
  def some(w: int, k: int): int = {
    val n = pool.length()
    if (rnd(w, k, 3) > 0) n - 1 else rnd(w, k + 1, n)
  }

  action create(w: int): bool = {
    val o = genObj(pick(w, 1, CLASSES), pick(w, 2, DIMS), w, OPS.contains("index") and rnd(w, 4, 4) > 0)
    all {
      pool' = pool.append(o),
      op' = noOp.with("act", "create").with("dst", pool.length()).with("args", o.args),
    }
  }
  action init = {
    nondet w = 0.to(bigW).oneOf()
    val o = genObj(pick(w, 1, CLASSES), pick(w, 2, DIMS), w, OPS.contains("index") and rnd(w, 4, 4) > 0)
    all {
      pool' = [o],
      op' = noOp.with("act", "create").with("dst", 0).with("args", o.args),
    }
  }
  action new = { nondet w = 0.to(bigW).oneOf() all { OPS.contains("new"), create(w) } }

  /// The scipy view: density or mass at six points, mean and variance.
  action read = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i]
    val n = lanesIn(o.dims)
    all {
      OPS.contains("read"), readable(o),
      {
        val rows = rowsOf(o)
        val pts = toList(0.to(5).mapBy(j => {
          val at = toList(0.to(n - 1).mapBy(l => pointsFor(o.cls, rows[l], w, 100 + 1000 * j + 60 * l)))
          { at: at, ld: toList(0.to(n - 1).mapBy(l => density(o.cls, rows[l], at[l]))) }
        }))
        all {
          pool' = pool,
          op' = noOp.with("act", "read").with("src", i).with("pts", pts)
                .with("mv", toList(0.to(n - 1).mapBy(l => if (o.cls == "Dirichlet") dirMean(rows[l]) else meanVar(o.cls, rows[l]))))
                .with("tail", if (o.cls == "BetaGeometric") toList(0.to(n - 1).mapBy(l => bgTail(rows[l], 60))) else []),
        }
      }
    }
  }
  pure def dirMean(p: Row): List[Rat] = {
    val s = rsum(["0", "1", "2", "3"].foldl([], (acc, i) => acc.append(p.get(aKey(i)))))
    ["0", "1", "2", "3"].foldl([], (acc, i) => acc.append(rdiv(p.get(aKey(i)), s)))
  }
  /// Mass of the beta-geometric beyond its first K values.
  pure def bgTail(p: Row, K: int): Rat =
    rdiv(rising(p.get("beta"), K), rising(radd(p.get("alpha"), p.get("beta")), K))

  /// A parameter is replaced in place.
  action reassign = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i]
    all {
      OPS.contains("assign"), lanesIn(o.dims) > 0, not(vector(o.cls)),
      {
        val fs = distFields(o.cls)
        val f = pick(w, 4, fs)
        // an argument of full shape stays so (another may depend on it for its shape)
        val was = o.args.select(a => a.name == f.name)[0]
        val a = genField(f, o.cls, if (was.role == "const") pick(w, 5, rolesOf(o.dims, true)) else was.role, w, 3000, o.dims)
        all {
          pool' = pool.replaceAt(i, o.with("args", toList(o.args.indices().mapBy(j => if (o.args[j].name == f.name) a else o.args[j])))),
          op' = noOp.with("act", "assign").with("src", i).with("field", f.name).with("args", [a]),
        }
      }
    }
  }

  // ---- indexing ----
  /// The object an index selects: the first axis is reduced or dropped.
  pure def selectFrom(o: Obj, k: Key): Obj = {
    val n = o.dims[0]
    val inner = if (o.dims.length() == 2) o.dims[1] else 1
    val sel = selected(n, k)
    val lanes = sel.foldl([], (acc, p) => range(0, inner).foldl(acc, (b, j) => b.append(p * inner + j)))
    val dims1 = if (k.kind == "int") o.dims.slice(1, o.dims.length()) else [sel.length()].concat(o.dims.slice(1, o.dims.length()))
    { cls: o.cls, dims: dims1,
      args: toList(o.args.indices().mapBy(i => {
        val a = o.args[i]
        { name: a.name, role: if (dims1.length() == 0) "const" else a.role, ints: a.ints, form: a.form,
          vals: lanes.foldl([], (acc, l) => acc.append(a.vals[l])) } })) }
  }
  action indexBy = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i]
    all {
      OPS.contains("index"), sliceable(o),
      {
        val k = genKey(w, o.dims[0])
        val ok = inRange(o.dims[0], k)
        all {
          pool' = if (ok) pool.append(selectFrom(o, k)) else pool,
          op' = noOp.with("act", "index").with("src", i).with("dst", if (ok) pool.length() else -1).with("key", k).with("ok", ok),
        }
      }
    }
  }

  // ---- sums of independent copies ----
  pure def scalable(cls: str): bool = Set("Exponential", "Gamma", "NegativeBinomial", "Poisson", "Normal").contains(cls)
  pure def scaleRow(cls: str, p: Row, k: Rat): Row =
    if (cls == "Exponential") Map("alpha" -> k, "beta" -> p.get("lam"))
    else if (cls == "Gamma") p.set("alpha", rmul(p.get("alpha"), k))
    else if (cls == "NegativeBinomial") p.set("n", rmul(p.get("n"), k))
    else if (cls == "Poisson") p.set("lam", rmul(p.get("lam"), k))
    else Map("mu" -> rmul(p.get("mu"), k), "sigma2" -> rmul(p.get("sigma2"), k))
  pure def scaledClass(cls: str): str = if (cls == "Exponential") "Gamma" else cls
  pure def roleOfField(o: Obj, f: str): str = {
    val l = o.args.select(a => a.name == f)
    if (l.length() > 0) l[0].role else "const"
  }
  pure def joined(o: Obj, r: str): str = o.args.foldl(r, (acc, a) => joinRole(acc, a.role))
  /// An object whose arguments are the given rows, all of one role.
  pure def fromRows(cls: str, dims: List[int], rows: List[Row], role: str): Obj =
    { cls: cls, dims: dims,
      args: toList(distFields(cls).indices().mapBy(i => {
        val f = distFields(cls)[i].name
        { name: f, role: role, ints: false, form: 0, vals: toList(rows.indices().mapBy(l => rows[l].get(f))) } })) }

  action scale = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i]
    val n = lanesIn(o.dims)
    all {
      OPS.contains("scale"), scalable(o.cls), n > 0,
      {
        val side = pick(w, 5, ["left", "right"])
        // (an array on the left would ask numpy, not the distribution)
        val role = if (side == "left") "const" else pick(w, 6, rolesOf(o.dims, false))
        val k = mkArg("factor", role, w, 4000,
          toList(0.to(n - 1).mapBy(l => valueOf("factor", w, 4100 + idx(role, layoutOf(o.dims), l), o.cls == "Exponential" and rnd(w, 4050, 2) == 0))))
        val rows = rowsOf(o)
        all {
          pool' = pool.append(fromRows(scaledClass(o.cls), o.dims, toList(0.to(n - 1).mapBy(l => scaleRow(o.cls, rows[l], k.vals[l]))),
                                       if (o.dims.length() == 0) "const" else "full")),
          op' = noOp.with("act", "scale").with("src", i).with("dst", pool.length()).with("side", side).with("args", [k]),
        }
      }
    }
  }
  action add = {
    nondet w = 0.to(bigW).oneOf()
    val ps = pool.indices().filter(j => pool[j].cls == "Poisson").fold([], (acc, j) => acc.append(j))
    all {
      OPS.contains("add"), ps.length() > 0,
      {
        val i = pick(w, 3, ps)
        val j0 = pick(w, 4, ps)
        // the same lanes, or a scalar
        val j = if (pool[j0].dims == pool[i].dims or pool[j0].dims.length() == 0) j0 else i
        val a = rowsOf(pool[i])
        val b = rowsOf(pool[j])
        val rows = toList(a.indices().mapBy(l => Map("lam" ->
          radd(a[l].get("lam"), (if (pool[j].dims.length() == 0) b[0] else b[l]).get("lam")))))
        all {
          pool' = pool.append(fromRows("Poisson", pool[i].dims, rows, if (pool[i].dims.length() == 0) "const" else "full")),
          op' = noOp.with("act", "add").with("src", i).with("src2", j).with("dst", pool.length()).with("side", pick(w, 5, ["left", "right"])),
        }
      }
    }
  }

  // ---- alternative constructors ----
  pure def ctorFields(c: str): List[Field] =
    if (c == "Beta.from_mean") [fd("mean", "unit"), fd("alpha", "pos")]
    else if (c == "Beta.from_successes_and_failures") [fd("successes", "count0"), fd("failures", "count0")]
    else if (c == "Gamma.from_occurrences_in_intervals") [fd("occurrences", "pos"), fd("intervals", "pos")]
    else if (c == "Normal.uninformative") [fd("sigma", "pos")]
    else if (c == "Normal.from_mean_and_variance") [fd("mean", "real"), fd("variance", "pos")]
    else if (c == "Normal.from_mean_and_precision") [fd("mean", "real"), fd("precision", "pos")]
    else [] // Beta.uninformative, Normal.uninformative.default, Dirichlet.uninformative
  pure def ctorClass(c: str): str =
    if (Set("Beta.from_mean", "Beta.from_successes_and_failures", "Beta.uninformative").contains(c)) "Beta"
    else if (c == "Gamma.from_occurrences_in_intervals") "Gamma"
    else if (c == "Dirichlet.uninformative") "Dirichlet"
    else "Normal"
  pure def ctorRow(c: str, a: Row): Row =
    if (c == "Beta.from_mean")
      Map("alpha" -> a.get("alpha"), "beta" -> rdiv(rmul(a.get("alpha"), rsub(r1, a.get("mean"))), a.get("mean")))
    else if (c == "Beta.from_successes_and_failures")
      Map("alpha" -> radd(a.get("successes"), r1), "beta" -> radd(a.get("failures"), r1))
    else if (c == "Beta.uninformative") Map("alpha" -> r1, "beta" -> r1)
    else if (c == "Gamma.from_occurrences_in_intervals") Map("alpha" -> a.get("occurrences"), "beta" -> a.get("intervals"))
    else if (c == "Normal.uninformative") Map("mu" -> r0, "sigma2" -> rsq(a.get("sigma")))
    else if (c == "Normal.uninformative.default") Map("mu" -> r0, "sigma2" -> r1)
    else if (c == "Normal.from_mean_and_variance") Map("mu" -> a.get("mean"), "sigma2" -> a.get("variance"))
    else if (c == "Normal.from_mean_and_precision") Map("mu" -> a.get("mean"), "sigma2" -> rinv(a.get("precision")))
    else Map("a0" -> r1, "a1" -> r1, "a2" -> r1, "a3" -> r1)
  pure val ctors: List[str] = ["Beta.from_mean", "Beta.from_successes_and_failures", "Beta.uninformative",
    "Gamma.from_occurrences_in_intervals", "Normal.uninformative", "Normal.uninformative.default",
    "Normal.from_mean_and_variance", "Normal.from_mean_and_precision", "Dirichlet.uninformative"]

  action alternative = {
    nondet w = 0.to(bigW).oneOf()
    val c = pick(w, 3, ctors)
    val fs = ctorFields(c)
    val dims = if (fs.length() == 0) [] else pick(w, 4, DIMS)
    val role = pick(w, 5, rolesOf(dims, false))
    all {
      OPS.contains("alternative"),
      {
        val args = toList(0.to(fs.length() - 1).mapBy(i =>
          genField(fs[i], ctorClass(c), pick(w, 10 + i, rolesOf(dims, false)), w, 5000 + 1000 * i, dims)))
        val rows = toList(0.to(lanesIn(dims) - 1).mapBy(l => ctorRow(c, rowOf(args, l))))
        all {
          pool' = pool.append(fromRows(ctorClass(c), dims, rows, if (dims.length() == 0) "const" else "full")),
          op' = noOp.with("act", "alternative").with("ctor", c).with("dst", pool.length()).with("args", args),
        }
      }
    }
  }

  // ---- conversions and components ----
  /// What can be derived from an object: constructor, class of the result.
  pure def conversions(cls: str): List[str] =
    if (cls == "ScaledInverseChiSquared") ["to_inverse_gamma"]
    else if (cls == "InverseGamma") ["ScaledInverseChiSquared.from_inverse_gamma", "NormalInverseGamma.from_inverse_gamma"]
    else if (cls == "NormalInverseGamma") ["inverse_gamma"]
    else if (cls == "NormalGamma") ["gamma"]
    else []
  pure def convClass(c: str): str =
    if (c == "to_inverse_gamma" or c == "inverse_gamma") "InverseGamma"
    else if (c == "ScaledInverseChiSquared.from_inverse_gamma") "ScaledInverseChiSquared"
    else if (c == "NormalInverseGamma.from_inverse_gamma") "NormalInverseGamma"
    else "Gamma"
  pure def convRow(c: str, p: Row, a: Row): Row =
    if (c == "to_inverse_gamma")
      Map("alpha" -> rmul(half, p.get("nu")), "beta" -> rmul(half, rmul(p.get("nu"), p.get("sigma2"))))
    else if (c == "ScaledInverseChiSquared.from_inverse_gamma")
      Map("nu" -> rmul(r2, p.get("alpha")), "sigma2" -> rdiv(p.get("beta"), p.get("alpha")))
    else if (c == "NormalInverseGamma.from_inverse_gamma")
      Map("mu" -> a.get("mu"), "nu" -> a.get("nu"), "alpha" -> p.get("alpha"), "beta" -> p.get("beta"))
    else Map("alpha" -> p.get("alpha"), "beta" -> p.get("beta"))

  action convert = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i]
    val n = lanesIn(o.dims)
    all {
      OPS.contains("convert"), conversions(o.cls).length() > 0, n > 0,
      {
        val c = pick(w, 4, conversions(o.cls))
        val args = if (c == "NormalInverseGamma.from_inverse_gamma")
            [genField(fd("mu", "real"), "", pick(w, 5, rolesOf(o.dims, false)), w, 5000, o.dims),
             genField(fd("nu", "pos"), "", pick(w, 6, rolesOf(o.dims, false)), w, 6000, o.dims)]
          else []
        val rows = rowsOf(o)
        all {
          pool' = pool.append(fromRows(convClass(c), o.dims, toList(0.to(n - 1).mapBy(l => convRow(c, rows[l], rowOf(args, l)))),
                                       if (o.dims.length() == 0) "const" else "full")),
          op' = noOp.with("act", "convert").with("ctor", c).with("src", i).with("dst", pool.length()).with("args", args),
        }
      }
    }
  }

  action step = any { new, read, reassign, indexBy, scale, add, alternative, convert }

  // ---------------------------------------------------------------- properties
  pure def requal(a: List[Rat], b: List[Rat]): bool =
    a.length() == b.length() and a.indices().forall(i => req(a[i], b[i]))

  /// Scaling and adding: cumulants of independent sums add up.
  val summing = {
    if (op.act == "scale") {
      val a = rowsOf(pool[op.src])
      val b = rowsOf(pool[op.dst])
      a.indices().forall(l => {
        val ca = cumulants(pool[op.src].cls, a[l])
        val cb = cumulants(pool[op.dst].cls, b[l])
        cb.indices().forall(j => req(cb[j], rmul(ca[j], op.args[0].vals[l])))
      })
    }
    else if (op.act == "add") {
      val a = rowsOf(pool[op.src])
      val b = rowsOf(pool[op.src2])
      val c = rowsOf(pool[op.dst])
      c.indices().forall(l => {
        val ca = cumulants("Poisson", a[l])
        val cb = cumulants("Poisson", if (b.length() == 1) b[0] else b[l])
        val cc = cumulants("Poisson", c[l])
        cc.indices().forall(j => req(cc[j], radd(ca[j], cb[j])))
      })
    }
    else true
  }

  /// An alternative constructor gives what its arguments say.
  val described = op.act != "alternative" or {
    val rows = rowsOf(pool[op.dst])
    rows.indices().forall(l => {
      val a = rowOf(op.args, l)
      val mv = meanVar(pool[op.dst].cls, rows[l])
      if (op.ctor == "Beta.from_mean") req(mv[0], a.get("mean")) and req(rows[l].get("alpha"), a.get("alpha"))
      else if (op.ctor == "Normal.from_mean_and_variance") req(mv[0], a.get("mean")) and req(mv[1], a.get("variance"))
      else if (op.ctor == "Normal.from_mean_and_precision") req(mv[0], a.get("mean")) and req(rmul(mv[1], a.get("precision")), r1)
      else if (op.ctor == "Beta.from_successes_and_failures")
        // the uninformative prior after the successes and failures
        keq(kernel("Beta", rows[l]), Map("ln_p" -> a.get("successes"), "ln_1p" -> a.get("failures")))
      else if (op.ctor == "Beta.uninformative") keq(kernel("Beta", rows[l]), Map("ln_p" -> r0, "ln_1p" -> r0))
      else if (op.ctor == "Gamma.from_occurrences_in_intervals") req(mv[0], rdiv(a.get("occurrences"), a.get("intervals")))
      else true
    })
  }

  /// Integrating the mean out of a joint kernel leaves the component's kernel.
  pure def marginal(cls: str, k: Row): Row =
    if (cls == "NormalInverseGamma")
      // exp((iv + m_iv m + m2_iv m^2)/v) over m: sqrt(v) exp((iv - m_iv^2/(4 m2_iv))/v)
      Map("ln_v" -> radd(k.get("ln_v"), half), "iv" -> rsub(k.get("iv"), rdiv(rsq(k.get("m_iv")), rmul(ri(4), k.get("m2_iv")))))
    else
      Map("ln_t" -> rsub(k.get("ln_t"), half), "t" -> rsub(k.get("t"), rdiv(rsq(k.get("m_t")), rmul(ri(4), k.get("m2_t")))))
  val converted = op.act != "convert" or {
    val a = rowsOf(pool[op.src])
    val b = rowsOf(pool[op.dst])
    b.indices().forall(l => {
      val ka = kernel(pool[op.src].cls, a[l])
      val kb = kernel(pool[op.dst].cls, b[l])
      if (op.ctor == "inverse_gamma" or op.ctor == "gamma") keq(kb, marginal(pool[op.src].cls, ka))
      else if (op.ctor == "NormalInverseGamma.from_inverse_gamma") keq(marginal("NormalInverseGamma", kb), ka)
      else keq(ka, kb) // the same law in another parametrisation
    })
  }

  /// Indexing picks lanes: each density value of the result is one of the source.
  val picked = (op.act == "index" and op.ok) implies {
    val a = rowsOf(pool[op.src])
    val b = rowsOf(pool[op.dst])
    val sel = selected(pool[op.src].dims[0], op.key)
    val inner = if (pool[op.src].dims.length() == 2) pool[op.src].dims[1] else 1
    b.length() == sel.length() * inner and b.indices().forall(l => keq(b[l], a[sel[l / inner] * inner + l % inner]))
  }

  /// Masses are proper: they sum to one, with the tail where it is known.
  pure def massUpTo(cls: str, p: Row, K: int): Rat =
    rsum(toList(0.to(K).mapBy(x => density(cls, p, Map("x" -> ri(x))).q)))
  val proper = op.act != "read" or {
    val o = pool[op.src]
    val p = rowsOf(o)[0]
    if (Set("Binomial", "BetaBinomial", "Hypergeometric").contains(o.cls)) {
      val top = if (o.cls == "Hypergeometric") p.get("n").n else p.get("n").n
      top > 30 or req(massUpTo(o.cls, p, top), r1)
    }
    else if (o.cls == "BetaGeometric") {
      val K = 12
      req(radd(massUpTo("BetaGeometric", p, if (p.get("one_start").n == 1) K else K - 1), bgTail(p, K)), r1)
    }
    else true
  }

  val inv = and { summing, described, converted, picked, proper }
}
