// -*- mode: quint -*-
/// What an object can be indexed by, and the positions a key selects out of n.
module keys {
  import rat.* from "./rat"

  type Key = { kind: str, i: int, hasA: bool, a: int, hasB: bool, b: int, hasS: bool, s: int, l: List[int], m: List[bool] }
  pure val noKey: Key = { kind: "", i: 0, hasA: false, a: 0, hasB: false, b: 0, hasS: false, s: 0, l: [], m: [] }

  pure def clamp(x: int, lo: int, hi: int): int = if (x < lo) lo else if (x > hi) hi else x
  pure def absIdx(x: int, n: int): int = if (x < 0) x + n else x
  /// Positions a Python slice selects out of n.
  pure def sliceIdx(n: int, k: Key): List[int] = {
    val s = if (k.hasS) k.s else 1
    val start = if (s > 0) (if (k.hasA) clamp(absIdx(k.a, n), 0, n) else 0)
                else (if (k.hasA) clamp(absIdx(k.a, n), -1, n - 1) else n - 1)
    val stop = if (s > 0) (if (k.hasB) clamp(absIdx(k.b, n), 0, n) else n)
               else (if (k.hasB) clamp(absIdx(k.b, n), -1, n - 1) else -1)
    range(0, n + 1).foldl([], (acc, j) => {
      val p = start + j * s
      if ((s > 0 and p < stop) or (s < 0 and p > stop)) acc.append(p) else acc
    })
  }
  pure def genKey(w: int, n: int): Key = {
    val kind = pick(w, 200, ["int", "int", "int", "slice", "slice", "list", "list", "mask", "array"])
    val out = rnd(w, 201, 6) == 0
    if (kind == "int")
      noKey.with("kind", "int").with("i", if (out) pick(w, 202, [n, -n - 1, n + 5, -n - 7]) else rnd(w, 203, 2 * n) - n)
    else if (kind == "slice")
      noKey.with("kind", "slice").with("hasA", rnd(w, 204, 3) > 0).with("a", rnd(w, 205, 2 * n + 3) - n - 1)
        .with("hasB", rnd(w, 206, 3) > 0).with("b", rnd(w, 207, 2 * n + 3) - n - 1)
        .with("hasS", rnd(w, 208, 2) > 0).with("s", pick(w, 209, [1, 2, -1, -2, 3]))
    else if (kind == "mask")
      noKey.with("kind", "mask").with("m", toList(0.to((if (out) n else n - 1)).mapBy(j => rnd(w, 300 + j, 2) == 0)))
    else
      noKey.with("kind", kind).with("l", toList(0.to(rnd(w, 210, n + 1)).mapBy(j =>
        if (out and j == 0) pick(w, 211, [n, -n - 1]) else rnd(w, 400 + j, 2 * n) - n)))
  }
  pure def inRange(n: int, k: Key): bool =
    if (k.kind == "int") -n <= k.i and k.i < n
    else if (k.kind == "slice") true
    else if (k.kind == "mask") k.m.length() == n
    else k.l.indices().forall(j => -n <= k.l[j] and k.l[j] < n)
  pure def selected(n: int, k: Key): List[int] =
    if (k.kind == "int") [absIdx(k.i, n)]
    else if (k.kind == "slice") sliceIdx(n, k)
    else if (k.kind == "mask") k.m.indices().fold([], (acc, j) => if (k.m[j]) acc.append(j) else acc)
    else k.l.foldl([], (acc, j) => acc.append(absIdx(j, n)))
}
