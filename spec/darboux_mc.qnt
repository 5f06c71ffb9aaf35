/// Small-scope state machine of Darboux sums (C13): a grid with values is extended point by point, then refined by
/// inserting points whose values lie between those of their neighbours (a monotonic function on that interval).
module darboux_mc {
  const XS: Set[int]
  const FS: Set[int]
  const SIZE: int

  type Point = { x: int, f: int }
  var pts: List[Point]
  var refined: bool
  /// sums before the last refinement
  var old: { lower: int, upper: int }

  pure def lo(a: int, b: int): int = if (a < b) a else b
  pure def hi(a: int, b: int): int = if (a < b) b else a
  pure def lower(p: List[Point]): int = range(0, p.length() - 1).foldl(0, (s, i) => s + lo(p[i].f, p[i + 1].f) * (p[i + 1].x - p[i].x))
  pure def upper(p: List[Point]): int = range(0, p.length() - 1).foldl(0, (s, i) => s + hi(p[i].f, p[i + 1].f) * (p[i + 1].x - p[i].x))
  /// twice the trapezoidal sum
  pure def trapez2(p: List[Point]): int = range(0, p.length() - 1).foldl(0, (s, i) => s + (p[i].f + p[i + 1].f) * (p[i + 1].x - p[i].x))
  pure def after(p: List[Point], x: int): bool = if (p.length() == 0) true else p[p.length() - 1].x < x
  pure def fits(p: List[Point], i: int, q: Point): bool =
    if (i + 1 >= p.length()) false
    else p[i].x < q.x and q.x < p[i + 1].x and lo(p[i].f, p[i + 1].f) <= q.f and q.f <= hi(p[i].f, p[i + 1].f)
  pure def insert(p: List[Point], k: int, q: Point): List[Point] =
    range(0, p.length()).foldl([], (a, i) => if (i == k) a.append(p[i]).append(q) else a.append(p[i]))

  action init = all { pts' = [], refined' = false, old' = { lower: 0, upper: 0 } }
  action extend = all {
    not(refined),
    pts.length() < SIZE - 1,
    nondet x = XS.oneOf()
    nondet f = FS.oneOf()
    all { after(pts, x), pts' = pts.append({ x: x, f: f }), refined' = false, old' = old }
  }
  action refine = all {
    pts.length() >= 2,
    pts.length() < SIZE,
    nondet i = 0.to(SIZE - 2).oneOf()
    nondet x = XS.oneOf()
    nondet f = FS.oneOf()
    all {
      fits(pts, i, { x: x, f: f }),
      pts' = insert(pts, i, { x: x, f: f }),
      refined' = true,
      old' = { lower: lower(pts), upper: upper(pts) },
    }
  }
  action step = any { extend, refine }

  val inv = and {
    0.to(pts.length() - 2).forall(i => pts[i].x < pts[i + 1].x),
    lower(pts) <= upper(pts),
    2 * lower(pts) <= trapez2(pts),
    trapez2(pts) <= 2 * upper(pts),
    refined implies old.lower <= lower(pts) and upper(pts) <= old.upper,
  }
}
module darboux_mcq { import darboux_mc(XS = Set(-2, -1, 0, 1, 3), FS = Set(-2, 0, 1), SIZE = 5).* }
module darboux_mct { import darboux_mc(XS = Set(-2, -1, 0, 1, 3, 4), FS = Set(-2, -1, 0, 1), SIZE = 5).* }
