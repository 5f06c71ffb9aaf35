/// Small-scope state machine of partitioned integration (C14): a monomial x^p y^q is integrated over a partition of the
/// first coordinate that is extended and split, and over a fixed range of the second one. All integrals are integers
/// after multiplication with (p + 1) (q + 1).
module partition_mc {
  const POINTS: Set[int]
  const SIZE: int

  var x0: List[int]
  var p: int
  var q: int
  /// limits of the second coordinate; equal limits: there is no second coordinate
  var y: { a: int, b: int }
  /// integrals of the intervals and of the entire range
  var parts: List[int]
  var total: int
  var split: bool

  pure def second(yy: { a: int, b: int }, e: int): int = if (yy.a == yy.b) 1 else yy.b^(e + 1) - yy.a^(e + 1)
  pure def piece(a: int, b: int, e: int, f: int, yy: { a: int, b: int }): int = (b^(e + 1) - a^(e + 1)) * second(yy, f)
  pure def pieces(xs: List[int], e: int, f: int, yy: { a: int, b: int }): List[int] =
    range(0, xs.length() - 1).foldl([], (l, i) => l.append(piece(xs[i], xs[i + 1], e, f, yy)))
  pure def suml(l: List[int]): int = l.foldl(0, (a, b) => a + b)
  pure def insert(xs: List[int], x: int): List[int] = {
    val r = xs.foldl({ l: [], done: false }, (s, v) =>
      if (not(s.done) and x < v) { l: s.l.append(x).append(v), done: true } else { l: s.l.append(v), done: s.done })
    r.l
  }

  action init = {
    nondet a = POINTS.oneOf()
    nondet b = POINTS.oneOf()
    nondet e = 0.to(3).oneOf()
    nondet f = 0.to(2).oneOf()
    nondet yy = Set({ a: 0, b: 0 }, { a: 0, b: 2 }, { a: -1, b: 3 }).oneOf()
    all {
      a < b,
      (yy.a == yy.b) implies f == 0,
      x0' = [a, b], p' = e, q' = f, y' = yy, parts' = pieces([a, b], e, f, yy), total' = piece(a, b, e, f, yy), split' = false,
    }
  }
  action divide = all {
    x0.length() < SIZE,
    nondet x = POINTS.oneOf()
    val xs = insert(x0, x)
    all {
      x0[0] < x,
      x < x0[x0.length() - 1],
      x0.indices().forall(i => x0[i] != x),
      x0' = xs, p' = p, q' = q, y' = y, parts' = pieces(xs, p, q, y), total' = total, split' = true,
    }
  }
  action step = divide

  val inv = and {
    0.to(x0.length() - 2).forall(i => x0[i] < x0[i + 1]),
    parts.length() == x0.length() - 1,
    // the result does not depend on the partition
    suml(parts) == total,
  }
}
module partition_mcq { import partition_mc(POINTS = Set(-2, -1, 0, 1, 3), SIZE = 4).* }
module partition_mct { import partition_mc(POINTS = Set(-3, -2, -1, 0, 1, 2, 4), SIZE = 6).* }
