/// Small-scope state machine of grids and coverage intervals (C04, C05) for a box-shaped resonance.
/// Energies are integers in units of 1/16 MeV, so the box is 16 units wide; probabilities are in units of 1/16.
module box_mc {
  const CENTRES: Set[int]
  const LIMITS: Set[int]
  const POINTS: Set[int]

  type Query = { kind: int, er: int, a: int, b: int, n: int }
  var q: Query
  /// kind 0 (grid between limits): points times (n - 1); kind 1 (coverage interval, a in quarters): lower, upper
  var result: List[int]
  var warned: bool

  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def cdf(er: int, e: int): int = maxi(0, mini(16, e - (er - 8)))
  /// quantile times d, for the probability p / (16 d)
  pure def ppf(er: int, p: int, d: int): int = d * (er - 8) + p
  pure def grid(er: int, a: int, b: int, n: int): List[int] = {
    val fa = cdf(er, a)
    val fb = cdf(er, b)
    range(0, n).foldl([], (acc, i) => acc.append(
      if (i == 0) (n - 1) * a
      else if (i == n - 1) (n - 1) * b
      else maxi((n - 1) * a, mini((n - 1) * b, ppf(er, fa * (n - 1) + (fb - fa) * i, n - 1)))))
  }
  pure def interval(er: int, c: int): List[int] = [maxi(0, er - 2 * c), er + 2 * c]

  action init = {
    nondet er = CENTRES.oneOf()
    all { q' = { kind: -1, er: er, a: 0, b: 0, n: 0 }, result' = [], warned' = false }
  }
  action askGrid = {
    nondet a = LIMITS.oneOf()
    nondet b = LIMITS.filter(x => x > a).oneOf()
    nondet n = POINTS.oneOf()
    all { q' = { kind: 0, er: q.er, a: a, b: b, n: n }, result' = grid(q.er, a, b, n), warned' = false }
  }
  action askInterval = {
    nondet c = Set(0, 1, 2, 3, 4).oneOf()
    all { q' = { kind: 1, er: q.er, a: c, b: 0, n: 0 }, result' = interval(q.er, c), warned' = q.er - 2 * c < 0 }
  }
  action step = all { q.kind == -1, any { askGrid, askInterval } }

  val n1 = q.n - 1
  val gridInv = q.kind == 0 implies and {
    result.length() == q.n,
    result[0] == n1 * q.a,
    result[q.n - 1] == n1 * q.b,
    1.to(q.n - 1).forall(i => result[i - 1] <= result[i]),
    // equal shares: differences of the cumulative distribution, times n - 1
    1.to(q.n - 1).forall(i => {
      val hi = maxi(0, mini(16 * n1, result[i] - n1 * (q.er - 8)))
      val lo = maxi(0, mini(16 * n1, result[i - 1] - n1 * (q.er - 8)))
      hi - lo == cdf(q.er, q.b) - cdf(q.er, q.a)
    }),
  }
  val intervalInv = q.kind == 1 implies and {
    0 <= result[0],
    result[0] <= result[1] or q.er < 0,
    cdf(q.er, result[1]) == 8 + 2 * q.a,
    not(warned) implies cdf(q.er, result[1]) - cdf(q.er, result[0]) == 4 * q.a,
    warned implies result[0] == 0,
  }
  val inv = gridInv and intervalInv
}
module box_mcq { import box_mc(CENTRES = Set(4, 8, 16, 40), LIMITS = Set(0, 3, 8, 17, 24, 48, 60), POINTS = Set(2, 3, 5)).* }
module box_mct { import box_mc(CENTRES = Set(1, 4, 7, 8, 9, 16, 24, 40, 160), LIMITS = Set(0, 1, 3, 8, 12, 16, 17, 24, 31, 33, 48, 60, 200), POINTS = Set(2, 3, 4, 5, 6, 9)).* }
