// -*- mode: quint -*-
/// Matrices of rationals with one common denominator (integer entries), so that
/// products and inverses are exact and stay fraction free.
module mat {
  import rat.* from "./rat"

  type Mat = { m: List[List[int]], d: int }

  pure def rows(a: Mat): int = a.m.length()
  pure def cols(a: Mat): int = a.m[0].length()
  pure def entry(a: Mat, i: int, j: int): Rat = mk(a.m[i][j], a.d)

  /// Lowest terms over all entries.
  pure def mred(a: Mat): Mat = {
    val g = a.m.foldl(a.d, (acc, row) => row.foldl(acc, (g1_, x) => if (g1_ == 1) 1 else gcd(g1_, x)))
    if (g == 1) a
    else { m: toList(a.m.indices().mapBy(i => toList(a.m[i].indices().mapBy(j => a.m[i][j] / g)))), d: a.d / g }
  }
  pure def zeros(r: int, c: int): Mat =
    { m: toList(0.to(r - 1).mapBy(i => toList(0.to(c - 1).mapBy(j => 0)))), d: 1 }
  pure def ident(n: int): Mat =
    { m: toList(0.to(n - 1).mapBy(i => toList(0.to(n - 1).mapBy(j => if (i == j) 1 else 0)))), d: 1 }
  pure def madd(a: Mat, b: Mat): Mat =
    mred({ m: toList(a.m.indices().mapBy(i => toList(a.m[i].indices().mapBy(j => a.m[i][j] * b.d + b.m[i][j] * a.d)))), d: a.d * b.d })
  pure def mscale(a: Mat, r: Rat): Mat =
    mred({ m: toList(a.m.indices().mapBy(i => toList(a.m[i].indices().mapBy(j => a.m[i][j] * r.n)))), d: a.d * r.d })
  pure def msub(a: Mat, b: Mat): Mat = madd(a, mscale(b, ri(-1)))
  pure def tr(a: Mat): Mat =
    { m: toList(0.to(cols(a) - 1).mapBy(j => toList(a.m.indices().mapBy(i => a.m[i][j])))), d: a.d }
  pure def mmul(a: Mat, b: Mat): Mat =
    mred({ m: toList(a.m.indices().mapBy(i => toList(0.to(cols(b) - 1).mapBy(j =>
             range(0, b.m.length()).foldl(0, (s, k) => s + a.m[i][k] * b.m[k][j]))))),
           d: a.d * b.d })
  pure def meq(a: Mat, b: Mat): bool =
    a.m.length() == b.m.length() and a.m.indices().forall(i =>
      a.m[i].length() == b.m[i].length() and a.m[i].indices().forall(j => a.m[i][j] * b.d == b.m[i][j] * a.d))
  pure def symmetric(a: Mat): bool = meq(a, tr(a))

  /// Fraction-free Gauss-Jordan elimination of [m | I] without pivoting (the
  /// leading minors of the matrices inverted here are positive).
  type Elim = { a: List[List[int]], prev: int }
  pure def elim(a: Mat): Elim = {
    val n = rows(a)
    val aug = toList(a.m.indices().mapBy(i => a.m[i].concat(ident(n).m[i])))
    range(0, n).foldl({ a: aug, prev: 1 }, (st, k) => {
      val pv = st.a[k][k]
      val rk = st.a[k]
      { a: toList(st.a.indices().mapBy(i => if (i == k) rk else {
          val f = st.a[i][k]
          toList(rk.indices().mapBy(j => (pv * st.a[i][j] - f * rk[j]) / st.prev)) })),
        prev: pv }
    })
  }
  pure def minv(a: Mat): Mat = {
    val e = elim(a)
    val n = rows(a)
    mred({ m: toList(e.a.indices().mapBy(i => toList(0.to(n - 1).mapBy(j => e.a[i][n + j] * a.d)))), d: e.prev })
  }
  pure def mdet(a: Mat): Rat = mk(elim(a).prev, a.d ^ rows(a))

  /// Column vectors.
  pure def col(l: List[Rat]): Mat = {
    val d = l.foldl(1, (s, x) => s * x.d / gcd(s, x.d))
    { m: toList(l.indices().mapBy(i => [l[i].n * (d / l[i].d)])), d: d }
  }
  pure def outer(a: Mat): Mat = mmul(a, tr(a))
  pure def dot(a: Mat, b: Mat): Rat = entry(mmul(tr(a), b), 0, 0)
  /// x' A x
  pure def quad(a: Mat, x: Mat): Rat = dot(x, mmul(a, x))
  pure def trace(a: Mat): Rat = mk(range(0, rows(a)).foldl(0, (s, i) => s + a.m[i][i]), a.d)
  pure def subvec(a: Mat, sel: List[int]): Mat =
    { m: toList(sel.indices().mapBy(i => a.m[sel[i]])), d: a.d }
  pure def submat(a: Mat, s1: List[int], s2: List[int]): Mat =
    { m: toList(s1.indices().mapBy(i => toList(s2.indices().mapBy(j => a.m[s1[i]][s2[j]])))), d: a.d }

  /// A positive definite matrix, from a lower triangular factor.
  pure def genSpd(n: int, w: int, k: int): Mat = {
    val l = { m: toList(0.to(n - 1).mapBy(i => toList(0.to(n - 1).mapBy(j =>
                if (i == j) pick(w, k + 10 * i + j, [1, 1, 2, 3]) else if (j < i) pick(w, k + 10 * i + j, [-2, -1, 0, 0, 1, 2]) else 0)))),
              d: pick(w, k + 99, [1, 1, 2, 3]) }
    mmul(l, tr(l))
  }
}
