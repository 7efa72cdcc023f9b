// -*- mode: quint -*-
/// Values callers pass: domains of numbers, lanes and broadcasting roles.
module args {
  import rat.* from "./rat"
  import models.* from "./models"

  /// Lanes are arranged in r rows and c columns; `arr`: arrays even for one lane.
  type Layout = { r: int, c: int, arr: bool }
  /// An argument: the same in all lanes ("const"), varying by column ("row"),
  /// by row ("col"), or everywhere ("full"). vals has one value per lane.
  type Arg = { name: str, role: str, ints: bool, form: int, vals: List[Rat] }

  pure val bigW: int = 1152921504606846975

  // ---------------------------------------------------------------- domains
  pure val domains: str -> List[Rat] = Map(
    "pos" -> [mk(1,1000), mk(1,8), mk(1,4), mk(1,2), mk(3,4), ri(1), ri(1), mk(3,2), ri(2), mk(5,2), ri(3), ri(4), ri(5), mk(13,2), ri(8), ri(13), ri(20), mk(75,2), ri(100), ri(1000), ri(1000000)],
    "real" -> [ri(-1000), mk(-25,2), ri(-3), ri(-1), mk(-1,4), ri(0), mk(1,2), ri(1), ri(2), mk(7,2), ri(10), ri(100)],
    "real1" -> [ri(-1), ri(0), mk(1,2), ri(1), ri(2)],
    "square" -> [mk(1,16), mk(1,4), ri(1), mk(9,4), ri(4), ri(9), ri(25), ri(100)],
    "unit" -> [mk(1,1000), mk(1,8), mk(1,4), mk(3,8), mk(1,2), mk(3,4), mk(7,8), mk(9999,10000)],
    "frac" -> [ri(0), ri(0), mk(1,4), mk(1,2), mk(3,4), ri(1)],
    "modest" -> [mk(1,4), mk(1,2), ri(1), mk(3,2), ri(2), ri(4)],
    "wide" -> [mk(1,100), mk(1,4), mk(1,2), ri(1), mk(3,2), ri(2), ri(4), ri(10), mk(75,2), ri(200), ri(600)],
    "cosine" -> [ri(-1), mk(-3,5), ri(0), mk(1,4), mk(1,2), mk(4,5), ri(1)],
    "res" -> [ri(-5), ri(-2), mk(-1,2), mk(1,2), ri(1), ri(3), ri(10)],
    "resn" -> [ri(-7), ri(-1), ri(0), mk(1,4), ri(2), ri(6)],
    "small" -> [mk(-1,2), ri(0), mk(1,4), mk(1,2)],
    "dir" -> [ri(0), ri(1), ri(2), ri(3), ri(4), ri(5), ri(6), ri(7), ri(8), ri(9), ri(10), ri(11)],
    "cat" -> [ri(0), ri(1), ri(2), ri(3)],
    "bit" -> [ri(0), ri(1)],
    "count0" -> [ri(0), ri(0), ri(1), ri(1), ri(2), ri(3), ri(5), ri(8), ri(40)],
    "count1" -> [ri(1), ri(2), ri(3), ri(5), ri(10)],
    "popsize" -> [ri(6), ri(10), ri(20), ri(100)],
    "cnt_trials" -> [ri(1), ri(1), ri(2), ri(5), ri(10), ri(50), ri(1000)],
    "cnt_draws" -> [ri(1), ri(2), ri(3), ri(5)],
    "cnt_expo" -> [mk(1,2), ri(1), ri(1), ri(2), ri(10)],
    "prob" -> [r0, mk(1,1000), mk(1,8), mk(1,4), mk(1,2), mk(3,4), mk(7,8), r1],
    "prob1" -> [mk(1,1000), mk(1,16), mk(1,8), mk(1,4), mk(1,2), mk(3,4), mk(7,8), r1],
    "posm" -> [mk(1,8), mk(1,2), ri(1), mk(3,2), ri(2), ri(4), ri(10), mk(75,2)],
    "mod0" -> [ri(-2), mk(-1,2), ri(0), mk(1,4), ri(1), ri(3)],
    "wshape" -> [r1, r2, half, ri(3)],
    "low" -> [ri(-10), ri(-2), mk(-1,2), ri(0), mk(1,4), ri(3), ri(10)],
    "high" -> [ri(11), mk(25,2), ri(20), ri(64)],
    "popN" -> [ri(20), ri(30), ri(50)],
    "popk" -> [ri(0), ri(1), ri(5), ri(12), ri(20)],
    "popn" -> [ri(0), ri(1), ri(2), ri(7), ri(20)],
    "shape" -> [r1, mk(3,2), r2, r2, mk(5,2), ri(3), ri(4), ri(6), ri(12)],
    "ishape" -> [r1, r1, r2, ri(3), ri(4), ri(7)],
    "spread" -> [mk(1,8), mk(1,2), r1, mk(3,2), r2, ri(5), mk(75,2)],
    "quarter" -> [mk(1,4)], "eighth" -> [mk(1,8)], "half" -> [mk(1,2)],
    "factor" -> [ri(1), ri(2), ri(3), ri(7), mk(1,2), mk(5,2), ri(10), ri(100)],
    "trials" -> [ri(1), ri(2), ri(3), ri(5), ri(10), ri(10), ri(150)],
    "trials_s" -> [ri(1), ri(1), ri(2), ri(3), ri(4)],
    "expo" -> [mk(1,4), mk(1,2), ri(1), ri(2), ri(3), ri(10)])
  pure val intDomains: str -> List[Rat] = domains.keys().mapBy(d => {
    val li = domains.get(d).select(x => isInt(x))
    if (li.length() == 0) domains.get(d) else li
  })

  pure def valueOf(d: str, w: int, k: int, intsOnly: bool): Rat =
    pick(w, k, if (intsOnly) intDomains.get(d) else domains.get(d))

  // ---------------------------------------------------------------- layout
  pure def lanesOf(lay: Layout): int = lay.r * lay.c
  pure def roles(lay: Layout): List[str] =
    if (lay.r == 1 and lay.c == 1) (if (lay.arr) ["const", "full"] else ["const"])
    else if (lay.r == 1) ["const", "full"]
    else ["const", "row", "col", "full"]
  pure def joinRole(a: str, b: str): str =
    if (a == b) a else if (a == "const") b else if (b == "const") a else "full"
  pure def idx(role: str, lay: Layout, l: int): int =
    if (role == "const") 0 else if (role == "row") 100 + l % lay.c
    else if (role == "col") 200 + l / lay.c else 300 + l

  pure def pickRole(w: int, k: int, lay: Layout): str = pick(w, k, roles(lay))

  pure def mkArg(name: str, role: str, w: int, k: int, vals: List[Rat]): Arg =
    { name: name, role: role, ints: vals.indices().forall(v => isInt(vals[v])) and rnd(w, k + 7, 3) > 0, form: rnd(w, k + 11, 12), vals: vals }

  /// Generate the fields of a row, each with its own role. Slot k is free from k*10000.
  pure def genArgs(fs: List[Field], w: int, k: int, lay: Layout, sameRole: bool): List[Arg] =
    toList(0.to(fs.length() - 1).mapBy(i => {
      val role = pickRole(w, k * 10000 + (if (sameRole) 0 else i), lay)
      val io = rnd(w, k * 10000 + 50 + i, 3) == 0
      mkArg(fs[i].name, role, w, k * 10000 + 100 + i * 20,
            toList(0.to(lanesOf(lay) - 1).mapBy(l => valueOf(fs[i].dom, w, k * 10000 + 1000 + i * 500 + idx(role, lay, l), io))))
    }))
  pure def rowOf(args: List[Arg], l: int): Row = args.foldl(Map(), (acc, a) => acc.put(a.name, a.vals[l]))
}
