// -*- mode: quint -*-
/// Exact rational arithmetic over unbounded integers, and the small list
/// utilities shared by every module of the specification.
module rat {
  /// n / d with d > 0, in lowest terms.
  type Rat = { n: int, d: int }
  /// One lane of a distribution's parameters, or one lane of a call's arguments.
  type Row = str -> Rat

  pure def iabs(a: int): int = if (a < 0) -a else a

  // ---- greatest common divisor: Euclid, unrolled (Quint has no recursion) ----
  type GP = { a: int, b: int }
  pure def g1(p: GP): GP = if (p.b == 0) p else { a: p.b, b: p.a % p.b }
  pure def g4(p: GP): GP = if (p.b == 0) p else g1(g1(g1(g1(p))))
  pure def g16(p: GP): GP = if (p.b == 0) p else g4(g4(g4(g4(p))))
  pure def g64(p: GP): GP = if (p.b == 0) p else g16(g16(g16(g16(p))))
  pure def g512(p: GP): GP = if (p.b == 0) p else g64(g64(g64(g64(g64(g64(g64(g64(p))))))))
  pure def g4k(p: GP): GP = if (p.b == 0) p else g512(g512(g512(g512(g512(g512(g512(g512(p))))))))
  pure def gcd(a: int, b: int): int = g4k({ a: iabs(a), b: iabs(b) }).a

  pure def mk(n: int, d: int): Rat =
    if (d == 1) { n: n, d: 1 }
    else {
      val g = gcd(n, d)
      if (d < 0) { n: -n / g, d: -d / g } else { n: n / g, d: d / g }
    }

  pure def ri(i: int): Rat = { n: i, d: 1 }
  pure val r0: Rat = { n: 0, d: 1 }
  pure val r1: Rat = { n: 1, d: 1 }
  pure val r2: Rat = { n: 2, d: 1 }
  pure val half: Rat = { n: 1, d: 2 }

  pure def radd(a: Rat, b: Rat): Rat =
    if (a.d == b.d) { if (a.d == 1) { n: a.n + b.n, d: 1 } else mk(a.n + b.n, a.d) }
    else mk(a.n * b.d + b.n * a.d, a.d * b.d)
  pure def rneg(a: Rat): Rat = { n: -a.n, d: a.d }
  pure def rsub(a: Rat, b: Rat): Rat = radd(a, rneg(b))
  pure def rmul(a: Rat, b: Rat): Rat = mk(a.n * b.n, a.d * b.d)
  pure def rinv(a: Rat): Rat = if (a.n < 0) { n: -a.d, d: -a.n } else { n: a.d, d: a.n }
  pure def rdiv(a: Rat, b: Rat): Rat = rmul(a, rinv(b))
  pure def rsq(a: Rat): Rat = { n: a.n * a.n, d: a.d * a.d }
  pure def req(a: Rat, b: Rat): bool = a.n == b.n and a.d == b.d
  pure def rlt(a: Rat, b: Rat): bool = a.n * b.d < b.n * a.d
  pure def rle(a: Rat, b: Rat): bool = a.n * b.d <= b.n * a.d
  pure def rpos(a: Rat): bool = a.n > 0
  pure def rmax(a: Rat, b: Rat): Rat = if (rlt(a, b)) b else a
  pure def rmin(a: Rat, b: Rat): Rat = if (rlt(a, b)) a else b
  pure def rabs(a: Rat): Rat = { n: iabs(a.n), d: a.d }
  pure def isInt(a: Rat): bool = a.d == 1
  pure def rfloor(a: Rat): int = if (a.n >= 0) a.n / a.d else -((-a.n + a.d - 1) / a.d)

  pure def rsum(l: List[Rat]): Rat = l.foldl(r0, (s, x) => radd(s, x))
  pure def rprod(l: List[Rat]): Rat = l.foldl(r1, (s, x) => rmul(s, x))

  /// a^k for an integer exponent of either sign.
  pure def rpow(a: Rat, k: int): Rat =
    if (k == 0) r1
    else if (k > 0) { n: a.n ^ k, d: a.d ^ k }
    else { val b = rinv(a) { n: b.n ^ (-k), d: b.d ^ (-k) } }

  /// a (a+1) ... (a+k-1)
  pure def rising(a: Rat, k: int): Rat =
    if (k <= 0) r1 else range(0, k).foldl(r1, (s, i) => rmul(s, radd(a, ri(i))))
  pure def fact(k: int): int = if (k <= 1) 1 else range(1, k + 1).foldl(1, (s, i) => s * i)
  pure def choose(n: int, k: int): int =
    if (k < 0 or k > n) 0
    else range(0, k).foldl(1, (s, i) => s * (n - i) / (i + 1))

  // ---- list helpers ----
  /// The list m(0), m(1), ... The simulator cannot re-enter a user-defined
  /// higher-order definition through its own argument, so lists are mapped with
  /// the built-in mapBy over indices: toList(0.to(n - 1).mapBy(i => ...)).
  pure def toList(m: int -> a): List[a] =
    range(0, m.keys().size()).foldl([], (acc, i) => acc.append(m.get(i)))
  pure def lrev(l: List[a]): List[a] = l.foldl([], (acc, x) => [x].concat(acc))

  // ---- a stream of choices derived from one nondeterministic integer ----
  // Every action draws one integer w; rnd(w, k, m) is its k-th choice in 0..m-1.
  pure def mix(x: int): int = {
    val a = (x * 6364136223846793005 + 1442695040888963407) % 18446744073709551616
    val b = (a / 4294967296) + (a % 4294967296) * 2654435761
    (b * 2862933555777941757 + 3037000493) % 18446744073709551616
  }
  pure def rnd(w: int, k: int, m: int): int = (mix(w + mix(k + 1)) / 65536) % m
  pure def pick(w: int, k: int, l: List[a]): a = l[rnd(w, k, l.length())]
}
