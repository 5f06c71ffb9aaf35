/// Small-scope state machine of reaction rates on grids (C16): reactions with one maximum, each with its own grid, are
/// put together, and the combination is integrated on the union of the grids.
///
/// A reaction is piecewise linear on the lattice 0..N, so that its integral is known exactly.
module rates_mc {
  const N: int
  const SHAPES: List[List[int]]
  const FACTORS: Set[int]
  const SIZE: int

  type Part = { shape: int, c: int, g: Set[int] }
  var parts: List[Part]
  /// bracket of the combination before the last refinement of a grid
  var old: { lower: int, upper: int }

  pure def lo(a: int, b: int): int = if (a < b) a else b
  pure def hi(a: int, b: int): int = if (a < b) b else a
  pure def sorted(g: Set[int]): List[int] = range(0, N + 1).foldl([], (a, x) => if (g.contains(x)) a.append(x) else a)
  pure def lower(f: List[int], g: Set[int]): int = {
    val p = sorted(g)
    range(0, p.length() - 1).foldl(0, (s, i) => s + lo(f[p[i]], f[p[i + 1]]) * (p[i + 1] - p[i]))
  }
  pure def upper(f: List[int], g: Set[int]): int = {
    val p = sorted(g)
    range(0, p.length() - 1).foldl(0, (s, i) => s + hi(f[p[i]], f[p[i + 1]]) * (p[i + 1] - p[i]))
  }
  /// twice the integral
  pure def integral2(f: List[int]): int = range(0, N).foldl(0, (s, i) => s + f[i] + f[i + 1])
  /// position of the first maximum
  pure def mode(f: List[int]): int = range(0, N + 1).foldl(0, (m, i) => if (f[i] > f[m]) i else m)

  pure def joint(ps: List[Part]): Set[int] = ps.foldl(Set(), (u, p) => u.union(p.g))
  pure def total(ps: List[Part]): List[int] =
    range(0, N + 1).foldl([], (l, x) => l.append(ps.foldl(0, (s, p) => s + p.c * SHAPES[p.shape][x])))
  pure def bracket(ps: List[Part]): { lower: int, upper: int } =
    if (ps.length() == 0) { lower: 0, upper: 0 }
    else {
      lower: ps.foldl(0, (s, p) => s + p.c * lower(SHAPES[p.shape], joint(ps))),
      upper: ps.foldl(0, (s, p) => s + p.c * upper(SHAPES[p.shape], joint(ps))),
    }

  action init = all { parts' = [], old' = { lower: 0, upper: 1000 } }
  /// a reaction with the coarsest grid on which it is monotonic in each interval
  action add(k, c) = all {
    parts.length() < SIZE,
    parts' = parts.append({ shape: k, c: c, g: Set(0, N, mode(SHAPES[k])) }),
    old' = { lower: 0, upper: 1000 },
  }
  action refine(i, x) = all {
    i < parts.length(),
    if (i < parts.length()) not(parts[i].g.contains(x)) else false,
    parts' = if (i < parts.length()) parts.replaceAt(i, { shape: parts[i].shape, c: parts[i].c, g: parts[i].g.union(Set(x)) }) else parts,
    old' = bracket(parts),
  }
  action step = any {
    nondet k = oneOf(0.to(SHAPES.length() - 1))
    nondet c = oneOf(FACTORS)
    add(k, c),
    nondet i = oneOf(0.to(SIZE - 1))
    nondet x = oneOf(1.to(N - 1))
    refine(i, x),
  }

  val inv = {
    val u = joint(parts)
    val f = total(parts)
    val b = bracket(parts)
    if (parts.length() == 0) true
    else and {
      // the bracket of each part holds its integral, and becomes narrower on the union
      parts.indices().forall(i => {
        val p = parts[i]
        val s = SHAPES[p.shape]
        and {
          2 * lower(s, p.g) <= integral2(s),
          integral2(s) <= 2 * upper(s, p.g),
          lower(s, p.g) <= lower(s, u),
          upper(s, u) <= upper(s, p.g),
        }
      }),
      // the brackets of the parts hold the integral of the combination, and its own sums
      2 * b.lower <= integral2(f),
      integral2(f) <= 2 * b.upper,
      b.lower <= lower(f, u),
      upper(f, u) <= b.upper,
      // a finer grid gives a narrower bracket
      old.lower <= b.lower,
      b.upper <= old.upper,
    }
  }
}
module rates_mcq {
  import rates_mc(N = 4, SHAPES = [[0, 1, 3, 1, 0], [3, 1, 1, 0, 0], [0, 0, 1, 2, 2], [1, 1, 1, 1, 1], [0, 4, 1, 0, 0]],
    FACTORS = Set(0, 1, 3), SIZE = 2).*
}
module rates_mct {
  import rates_mc(N = 4, SHAPES = [[0, 1, 3, 1, 0], [3, 1, 1, 0, 0], [0, 0, 1, 2, 2], [0, 4, 1, 0, 0]],
    FACTORS = Set(1, 3), SIZE = 3).*
}
