// -*- mode: quint -*-
/// Plotting: distribution objects that carry bounds, axes that carry lines.
/// Bounds belong to one object, start with the natural range of the family and
/// change only when they are set; a plot adds one line per lane to one axes.
module plot {
  import rat.* from "./rat"
  import families.* from "./families"
  import models.* from "./models"
  import args.* from "./args"
  import keys.* from "./keys"
  import objects.* from "./objects"

  const CLASSES: List[str]
  const DIMS: List[List[int]]
  const OPS: Set[str]
  /// which of the optional arguments of a plot are exercised
  const DECOR: Set[str]

  /// One end of the plotted range: not set, or v + pi * (the number pi).
  type End = { set: bool, v: Rat, pi: int }
  type Plottable = { o: Obj, lo: End, hi: End }
  /// What a curve is called and drawn with.
  type Label = { kind: str, t: int, i: int }
  type Opt = { name: str, v: int }
  type Curve = { cls: str, row: Row, lane: int, fn: str, cond: bool, lo: End, hi: End,
                 label: Label, color: int, opts: List[Opt] }
  type LabelArg = { mode: str, vals: List[int], cont: str }
  type ColorArg = { mode: str, vals: List[int], form: str, cont: str }
  type Op = { act: str, src: int, dst: int, how: str, forms: List[int], args: List[Arg], key: Key, ax: int, given: bool, ok: bool,
              fn: str, cond: bool, label: LabelArg, color: ColorArg, opts: List[Opt], seed: int,
              lines: List[Curve], xs: List[List[Rat]], ld: List[List[LD]],
              // whether the bounds of all objects are read after the step
              look: bool }

  var pool: List[Plottable]
  var axes: List[List[Curve]]
  var current: int
  var op: Op

  pure val unset: End = { set: false, v: r0, pi: 0 }
  pure def at(v: Rat): End = { set: true, v: v, pi: 0 }
  pure val noLabel: LabelArg = { mode: "absent", vals: [], cont: "" }
  pure val noColor: ColorArg = { mode: "absent", vals: [], form: "", cont: "" }
  pure val noOp: Op = { act: "", src: -1, dst: -1, how: "", forms: [], args: [], key: noKey, ax: -1, given: false, ok: true,
                        fn: "", cond: false, label: noLabel, color: noColor, opts: [], seed: 0,
                        lines: [], xs: [], ld: [], look: false }

  // ---------------------------------------------------------------- bounds
  pure def discrete(cls: str): bool = isDiscrete(cls)
  pure def fieldVals(o: Obj, f: str): List[Rat] = o.args.select(a => a.name == f)[0].vals
  pure def largest(l: List[Rat]): Rat = l.foldl(l[0], (acc, x) => rmax(acc, x))
  pure def smallest(l: List[Rat]): Rat = l.foldl(l[0], (acc, x) => rmin(acc, x))
  /// Families with a natural range start with it.
  pure def naturalLo(o: Obj): End =
    if (o.cls == "Uniform") at(smallest(fieldVals(o, "low")))
    else if (o.cls == "VonMises") { set: true, v: r0, pi: -1 }
    else at(r0)
  pure def naturalHi(o: Obj): End =
    if (o.cls == "Beta" or o.cls == "Dirichlet") at(r1)
    else if (Set("Binomial", "BetaBinomial", "BetaNegativeBinomial").contains(o.cls)) at(largest(fieldVals(o, "n")))
    else if (o.cls == "Hypergeometric") at(largest(fieldVals(o, "N")))
    else if (o.cls == "Uniform") at(largest(fieldVals(o, "high")))
    else if (o.cls == "VonMises") { set: true, v: r0, pi: 1 }
    else unset
  /// The fields the natural range is made of.
  pure def ranges(cls: str): Set[str] =
    if (Set("Binomial", "BetaBinomial", "BetaNegativeBinomial").contains(cls)) Set("n")
    else if (cls == "Hypergeometric") Set("N") else if (cls == "Uniform") Set("low", "high") else Set()
  pure def fresh(o: Obj): Plottable = { o: o, lo: naturalLo(o), hi: naturalHi(o) }

  pure def endLt(a: End, b: End): bool =
    // pi is between 3 and 4, and no value other than a multiple of pi is in between
    not(a.set) or not(b.set) or rlt(radd(a.v, mk(157 * a.pi, 50)), radd(b.v, mk(157 * b.pi, 50)))

  /// A discrete curve may be a single point.
  pure def nonEmpty(cls: str, lo: End, hi: End): bool =
    endLt(lo, hi) or (discrete(cls) and lo.set and hi.set and req(lo.v, hi.v))

  pure val intLows: List[Rat] = [r0, r0, r1, r2, ri(3), ri(-2)]
  pure val intHighs: List[Rat] = [r0, r1, ri(-1), ri(4), ri(5), ri(9), ri(13), ri(14), ri(15), ri(16), ri(21), ri(30), ri(75), ri(130)]
  pure val realLows: List[Rat] = [r0, r0, mk(1, 4), mk(-1, 2), ri(-3), mk(1, 8), ri(-25)]
  pure val realHighs: List[Rat] = [half, r1, mk(5, 2), ri(4), ri(10), ri(64), r0, mk(-1, 4), ri(-2), ri(1000)]

  // ---------------------------------------------------------------- curves
  pure def lanesCount(o: Obj): int = if (o.cls == "Dirichlet") 4 else lanesIn(o.dims)
  pure def labelsFor(a: LabelArg, n: int): List[Label] =
    toList(0.to(n - 1).mapBy(i =>
      if (a.mode == "str") (if (n == 1) { kind: "text", t: a.vals[0], i: 0 } else { kind: "number", t: a.vals[0], i: i + 1 })
      else if (a.mode == "seq") (if (a.vals[i] < 0) { kind: "none", t: 0, i: 0 } else { kind: "text", t: a.vals[i], i: 0 })
      else if (a.mode == "fun") { kind: "fun", t: a.vals[0], i: i }
      else { kind: "none", t: 0, i: 0 }))
  pure def colorsFor(a: ColorArg, n: int): List[int] =
    toList(0.to(n - 1).mapBy(i =>
      if (a.mode == "one") a.vals[0] else if (a.mode == "seq") a.vals[i % a.vals.length()] else -1))

  pure def genLabel(w: int, n: int): LabelArg = {
    val mode = pick(w, 500, ["absent", "none", "str", "str", "seq", "seq", "seq", "fun", "fun"])
    val gaps = n > 1 and rnd(w, 501, 2) == 0
    if (mode == "absent") noLabel
    else { mode: mode, cont: pick(w, 502, ["list", "tuple", "array", "dict", "range"]),
           vals: toList(0.to(n - 1).mapBy(i => if (mode == "seq" and gaps and rnd(w, 510 + i, 3) == 0) -1 else rnd(w, 520 + i, 9))) }
  }
  pure def genColor(w: int, n: int): ColorArg = {
    val mode = pick(w, 600, ["absent", "one", "one", "seq", "seq", "seq"])
    if (mode == "absent") noColor
    else { mode: mode, form: pick(w, 601, ["name", "hex", "rgb", "rgba", "grey", "mixed"]), cont: pick(w, 602, ["list", "tuple", "array"]),
           vals: toList(0.to(n - 1 + rnd(w, 603, 2)).mapBy(i => rnd(w, 610 + i, 6))) }
  }
  pure def genOpts(w: int, disc: bool): List[Opt] = {
    val names = if (disc) ["linewidth", "alpha", "zorder", "mark", "markersize"] else ["linewidth", "alpha", "zorder", "linestyle", "marker"]
    range(0, 5).foldl([], (acc, j) => if (rnd(w, 700 + j, 3) == 0) acc.append({ name: names[j], v: rnd(w, 710 + j, 4) }) else acc)
  }

  // points at which the drawn curve is known exactly
  pure def gridAt(lo: End, hi: End, j: int): Rat =
    radd(lo.v, rmul(mk(j, 99), rsub(hi.v, lo.v)))
  pure def interior(cls: str, row: Row, x: Rat): bool =
    if (cls == "Beta" or cls == "BetaPrime") x.n != 0 and not(req(x, r1))
    else if (cls == "Uniform") not(req(x, row.get("low"))) and not(req(x, row.get("high")))
    else if (cls == "Pareto") not(req(x, row.get("x_m")))
    else if (cls == "Normal" or cls == "StudentT") true
    else if (Set("LogNormal", "Weibull", "VonMises", "Dirichlet").contains(cls)) false
    else x.n != 0
  pure def knownPoints(p: Plottable, row: Row, fn: str, cond: bool): List[Rat] =
    if (discrete(p.o.cls)) {
      val from = if (fn == "cdf") 0 else p.lo.v.n
      val n = p.hi.v.n - from
      if (n < 0) []
      else if (n <= 16) toList(0.to(n).mapBy(j => ri(j + from)))
      else if (cond or fn == "cdf") []
      else [0, 1, 7, n / 2, n].foldl([], (acc, j) => acc.append(ri(j + from)))
    }
    else if (fn == "cdf" or p.lo.pi != 0 or p.hi.pi != 0) []
    else [0, 1, 11, 33, 50, 66, 98, 99].foldl([], (acc, j) => {
      val x = gridAt(p.lo, p.hi, j)
      if (interior(p.o.cls, row, x)) acc.append(x) else acc
    })

  // ---------------------------------------------------------------- actions
  def some(w: int, k: int): int = {
    val n = pool.length()
    if (rnd(w, k, 3) > 0) n - 1 else rnd(w, k + 1, n)
  }
  def genPlottable(w: int): Plottable = {
    val cls = pick(w, 1, CLASSES)
    fresh(genObj(cls, if (cls == "Dirichlet") [] else pick(w, 2, DIMS), w, OPS.contains("index") and rnd(w, 4, 4) > 0))
  }
  action create(w: int): bool = {
    val p = genPlottable(w)
    all {
      pool' = pool.append(p), axes' = axes, current' = current,
      op' = noOp.with("act", "create").with("look", rnd(w, 900, 3) == 0).with("dst", pool.length()),
    }
  }
  action init = {
    nondet w = 0.to(bigW).oneOf()
    val p = genPlottable(w)
    all {
      // two ordinary axes and a polar one
      pool' = [p], axes' = [[], [], []], current' = 0,
      op' = noOp.with("act", "create").with("look", rnd(w, 900, 3) == 0).with("dst", 0),
    }
  }
  action new = { nondet w = 0.to(bigW).oneOf() all { OPS.contains("new"), pool.length() < 6, create(w) } }

  /// A bound is set: by a method (which returns the object) or by the attribute.
  action setBound = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val p = pool[i]
    val disc = discrete(p.o.cls)
    val how = pick(w, 4, ["set_min_value", "set_max_value", "set_max_value", "set_bounds", "set_bounds", "chain", "chainback", "min_value", "max_value"])
    val setsLo = Set("set_min_value", "set_bounds", "chain", "chainback", "min_value").contains(how)
    val setsHi = Set("set_max_value", "set_bounds", "chain", "chainback", "max_value").contains(how)
    val lo = if (setsLo) at(pick(w, 5, if (disc) intLows else realLows)) else p.lo
    val hi = if (setsHi) at(pick(w, 6, if (disc) intHighs else realHighs)) else p.hi
    all {
      OPS.contains("bounds"),
      // (an empty range can be stated, it is only never plotted)
      nonEmpty(p.o.cls, lo, hi) or rnd(w, 9, 2) == 0,
      pool' = pool.replaceAt(i, { o: p.o, lo: lo, hi: hi }), axes' = axes, current' = current,
      op' = noOp.with("act", "bounds").with("look", rnd(w, 900, 3) == 0).with("src", i).with("how", how).with("forms", [rnd(w, 7, 4), rnd(w, 8, 4)]),
    }
  }
  /// A parameter is replaced in place: the bounds of the object stay.
  action reassign = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val p = pool[i]
    val fs = distFields(p.o.cls).select(f => not(ranges(p.o.cls).contains(f.name)))
    all {
      OPS.contains("assign"), not(vector(p.o.cls)), fs.length() > 0,
      {
        val f = pick(w, 4, fs)
        val was = p.o.args.select(a => a.name == f.name)[0]
        val a = genField(f, p.o.cls, if (was.role == "const") pick(w, 5, rolesOf(p.o.dims, true)) else was.role, w, 3000, p.o.dims)
        all {
          pool' = pool.replaceAt(i, p.with("o", p.o.with("args", toList(p.o.args.indices().mapBy(j => if (p.o.args[j].name == f.name) a else p.o.args[j]))))),
          axes' = axes, current' = current,
          op' = noOp.with("act", "assign").with("look", rnd(w, 900, 3) == 0).with("src", i).with("how", f.name).with("args", [a]),
        }
      }
    }
  }
  pure def selectLanes(o: Obj, k: Key): Obj = {
    val sel = selected(o.dims[0], k)
    val dims1 = if (k.kind == "int") [] else [sel.length()]
    { cls: o.cls, dims: dims1,
      args: toList(o.args.indices().mapBy(i => {
        val a = o.args[i]
        { name: a.name, role: if (dims1.length() == 0) "const" else a.role, ints: a.ints, form: a.form,
          vals: sel.foldl([], (acc, l) => acc.append(a.vals[l])) } })) }
  }
  /// An indexed distribution is an object of its own, with its own bounds.
  action indexBy = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val o = pool[i].o
    all {
      OPS.contains("index"), pool.length() < 6, sliceable(o),
      {
        val k = genKey(w, o.dims[0])
        all {
          inRange(o.dims[0], k), selected(o.dims[0], k).length() > 0,
          pool' = pool.append(fresh(selectLanes(o, k))), axes' = axes, current' = current,
          op' = noOp.with("act", "index").with("look", rnd(w, 900, 3) == 0).with("src", i).with("dst", pool.length()).with("key", k),
        }
      }
    }
  }
  /// The user draws a line of their own, or makes other axes current.
  action draw = {
    nondet w = 0.to(bigW).oneOf()
    val j = rnd(w, 3, axes.length())
    all {
      OPS.contains("draw"),
      pool' = pool, current' = current,
      axes' = axes.replaceAt(j, axes[j].append({ cls: "", row: Map(), lane: 0, fn: "user", cond: false, lo: unset, hi: unset,
                                                 label: { kind: "none", t: 0, i: 0 }, color: -1, opts: [] })),
      op' = noOp.with("act", "draw").with("look", rnd(w, 900, 3) == 0).with("ax", j),
    }
  }
  action focus = {
    nondet w = 0.to(bigW).oneOf()
    all {
      OPS.contains("select"),
      pool' = pool, axes' = axes, current' = rnd(w, 3, axes.length()),
      op' = noOp.with("act", "focus").with("look", rnd(w, 900, 3) == 0).with("ax", rnd(w, 3, axes.length())),
    }
  }

  pure def kindsOf(cls: str): List[str] =
    if (cls == "Dirichlet" or cls == "CompoundGamma") ["pdf"]
    else if (cls == "BetaGeometric") ["pmf"]
    else if (discrete(cls)) ["pmf", "pmf", "cdf"] else ["pdf", "pdf", "cdf"]

  action plot = {
    nondet w = 0.to(bigW).oneOf()
    val i = some(w, 3)
    val p = pool[i]
    val n = lanesCount(p.o)
    val fn = pick(w, 4, kindsOf(p.o.cls))
    val cond = fn == "pmf" and DECOR.contains("conditional") and rnd(w, 5, 3) == 0
    val given = rnd(w, 6, 3) > 0
    val ax = if (given) rnd(w, 7, axes.length()) else current
    val la = if (DECOR.contains("label")) genLabel(w, n) else noLabel
    val ca = if (DECOR.contains("color")) genColor(w, n) else noColor
    val os = if (DECOR.contains("opts")) genOpts(w, discrete(p.o.cls)) else []
    val ok = p.hi.set
    val rows = rowsOf(p.o)
    val ls = labelsFor(la, n)
    val cs = colorsFor(ca, n)
    val lines = if (not(ok)) [] else toList(0.to(n - 1).mapBy(l => {
      cls: p.o.cls, row: if (p.o.cls == "Dirichlet") rows[0] else rows[l], lane: l, fn: fn, cond: cond, lo: p.lo, hi: p.hi,
      label: ls[l], color: cs[l], opts: os }))
    val xs = toList(lines.indices().mapBy(l => 
      if (DECOR.contains("points") and Set(0, n - 1, n / 2).contains(l)) knownPoints(p, lines[l].row, fn, cond) else []))
    all {
      OPS.contains("plot"), not(p.hi.set) or nonEmpty(p.o.cls, p.lo, p.hi),
      pool' = pool, current' = current,
      axes' = axes.replaceAt(ax, axes[ax].concat(lines)),
      op' = noOp.with("act", "plot").with("look", rnd(w, 900, 3) == 0).with("src", i).with("ax", ax).with("given", given).with("ok", ok).with("fn", fn).with("cond", cond)
            .with("label", la).with("color", ca).with("opts", os).with("seed", rnd(w, 8, 1000)).with("lines", lines).with("xs", xs)
            .with("ld", toList(lines.indices().mapBy(l => toList(xs[l].indices().mapBy(j =>
              density(lines[l].cls, lines[l].row, Map("x" -> xs[l][j]))))))),
    }
  }

  action step = any { plot, plot, plot, new, setBound, setBound, reassign, indexBy, draw, focus }

  // ---------------------------------------------------------------- properties
  /// One line per lane, each over the bounds of the object that was plotted.
  val onePerLane = (op.act == "plot" and op.ok) implies {
    val p = pool[op.src]
    op.lines.length() == lanesCount(p.o)
      and op.lines.indices().forall(l => op.lines[l].lane == l and op.lines[l].lo == p.lo and op.lines[l].hi == p.hi)
      and axes[op.ax].slice(axes[op.ax].length() - op.lines.length(), axes[op.ax].length()) == op.lines
  }
  /// Only non-empty ranges are drawn; families with a natural range always have one.
  val ranged = axes.indices().forall(j => axes[j].indices().forall(k =>
      axes[j][k].fn == "user" or (axes[j][k].lo.set and axes[j][k].hi.set and nonEmpty(axes[j][k].cls, axes[j][k].lo, axes[j][k].hi))))
    and pool.indices().forall(i => pool[i].lo.set and (naturalHi(pool[i].o).set implies pool[i].hi.set))
  /// No bound, no plot.
  val refused = op.act != "plot" or (op.ok == pool[op.src].hi.set and (op.ok or op.lines.length() == 0))
  /// New objects start with the natural range.
  val natural = not(Set("create", "index").contains(op.act)) or
    (pool[op.dst].lo == naturalLo(pool[op.dst].o) and pool[op.dst].hi == naturalHi(pool[op.dst].o))
  /// Labels of several curves of one plot with one string differ.
  val distinctLabels = (op.act == "plot" and op.label.mode == "str") implies
    op.lines.indices().forall(a => op.lines.indices().forall(b => a == b or op.lines[a].label != op.lines[b].label))

  val inv = and { onePerLane, ranged, refused, natural, distinctLabels }
}
