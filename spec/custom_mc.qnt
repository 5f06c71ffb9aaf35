/// Small-scope state machine of resonances with a user-defined line shape (C19): a density which is constant in cells of
/// unit length, not symmetric and possibly zero in some cells. Cell k reaches from lo + k to lo + k + 1 and has the weight w[k].
module custom_mc {
  const CELLS: int
  const WEIGHTS: Set[int]
  const STARTS: Set[int]
  const POINTS: Set[int]

  type Ratio = { num: int, den: int }
  /// kind 0: grid between a and b, 1: grid with coverage a / 8, 2: coverage interval a / 8, 3: density at a + 1/2
  type Query = { kind: int, a: int, b: int, n: int }
  var lo: int
  var w: List[int]
  var q: Query
  var result: List[Ratio]
  var warned: bool

  pure def sum(l: List[int]): int = l.foldl(0, (s, v) => s + v)
  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def mini(a: int, b: int): int = if (a < b) a else b
  pure def less(x: Ratio, y: Ratio): bool = x.num * y.den < y.num * x.den
  pure def whole(v: int): Ratio = { num: v, den: 1 }
  /// weight of the first k cells
  pure def below(l: List[int], k: int): int = sum(l.slice(0, maxi(0, mini(l.length(), k))))

  /// cumulative weight (times the denominator) at an energy
  pure def cumulative(s: int, l: List[int], e: Ratio): int = {
    val x = e.num - s * e.den
    val k = if (x < 0) -1 else x / e.den
    if (k < 0) 0
    else if (k >= l.length()) sum(l) * e.den
    else below(l, k) * e.den + l[k] * (x - k * e.den)
  }
  /// smallest energy at which the cumulative weight is p / d
  pure def quantile(s: int, l: List[int], p: int, d: int): Ratio = {
    val full = l.indices().filter(k => below(l, k) * d < p and p <= below(l, k + 1) * d)
    if (p <= 0) whole(s)
    else full.fold(whole(s + l.length()), (r, k) => { num: (s + k) * d * l[k] + p - below(l, k) * d, den: d * l[k] })
  }
  pure def grid(s: int, l: List[int], a: int, b: int, n: int): List[Ratio] = {
    val fa = cumulative(s, l, whole(a))
    val fb = cumulative(s, l, whole(b))
    range(0, n).foldl([], (acc, i) => {
      val x = quantile(s, l, fa * (n - 1) + (fb - fa) * i, n - 1)
      acc.append(if (i == 0) whole(a) else if (i == n - 1) whole(b) else if (less(x, whole(a))) whole(a) else if (less(whole(b), x)) whole(b) else x)
    })
  }
  /// lower and upper probability of a coverage c / 8 are (8 - c) / 16 and (8 + c) / 16
  pure def shares(s: int, l: List[int], c: int, n: int): List[Ratio] =
    range(0, n).foldl([], (acc, i) => acc.append(quantile(s, l, sum(l) * ((8 - c) * (n - 1) + 2 * c * i), 16 * (n - 1))))
  pure def interval(s: int, l: List[int], c: int): List[Ratio] = {
    val x = shares(s, l, c, 2)
    [if (less(x[0], whole(0))) whole(0) else x[0], x[1]]
  }

  pure def weightings(n: int): Set[List[int]] =
    range(0, n).foldl(Set([]), (known, k) => known.map(l => WEIGHTS.map(v => l.append(v))).flatten()).filter(l => sum(l) > 0)

  action init = {
    nondet s = STARTS.oneOf()
    nondet l = weightings(CELLS).oneOf()
    all { lo' = s, w' = l, q' = { kind: -1, a: 0, b: 0, n: 0 }, result' = [], warned' = false }
  }
  action askGrid = {
    nondet a = (-1).to(CELLS).oneOf()
    nondet b = 0.to(CELLS + 1).filter(x => x > a).oneOf()
    nondet n = POINTS.oneOf()
    all { q' = { kind: 0, a: lo + a, b: lo + b, n: n }, result' = grid(lo, w, lo + a, lo + b, n), warned' = false, lo' = lo, w' = w }
  }
  action askShares = {
    nondet c = 0.to(8).oneOf()
    nondet n = POINTS.oneOf()
    all { q' = { kind: 1, a: c, b: 0, n: n }, result' = shares(lo, w, c, n), warned' = false, lo' = lo, w' = w }
  }
  action askInterval = {
    nondet c = 0.to(8).oneOf()
    all { q' = { kind: 2, a: c, b: 0, n: 2 }, result' = interval(lo, w, c), warned' = less(shares(lo, w, c, 2)[0], whole(0)), lo' = lo, w' = w }
  }
  action askDensity = {
    nondet k = (-1).to(CELLS).oneOf()
    all { q' = { kind: 3, a: lo + k, b: 0, n: 1 },
          result' = [{ num: below(w, k + 1) - below(w, k), den: sum(w) }], warned' = false, lo' = lo, w' = w }
  }
  action step = all { q.kind == -1, any { askGrid, askShares, askInterval, askDensity } }

  /// cumulative weight of a point is p / d
  def at(x: Ratio, p: int, d: int): bool = cumulative(lo, w, x) * d == p * x.den
  val ordered = 1.to(result.length() - 1).forall(i => not(less(result[i], result[i - 1])))
  val gridInv = q.kind == 0 implies and {
    result.length() == q.n,
    result[0] == whole(q.a),
    result[q.n - 1] == whole(q.b),
    ordered,
    0.to(q.n - 1).forall(i => {
      val fa = cumulative(lo, w, whole(q.a))
      val fb = cumulative(lo, w, whole(q.b))
      at(result[i], fa * (q.n - 1) + (fb - fa) * i, q.n - 1)
    }),
  }
  val sharesInv = q.kind == 1 implies and {
    result.length() == q.n,
    ordered,
    0.to(q.n - 1).forall(i => at(result[i], sum(w) * ((8 - q.a) * (q.n - 1) + 2 * q.a * i), 16 * (q.n - 1))),
  }
  val intervalInv = q.kind == 2 implies and {
    result[0].num >= 0,
    warned implies result[0] == whole(0),
    not(warned) implies at(result[0], sum(w) * (8 - q.a), 16),
    // the reachable coverage is smaller than the requested one if the limit is replaced
    (warned and q.a > 0) implies cumulative(lo, w, whole(0)) * 16 >= sum(w) * (8 - q.a),
    at(result[1], sum(w) * (8 + q.a), 16) or result[1].num < 0 or warned,
  }
  val densityInv = q.kind == 3 implies result[0].num >= 0 and result[0].num <= result[0].den
  val inv = gridInv and sharesInv and intervalInv and densityInv
}
module custom_mcq { import custom_mc(CELLS = 3, WEIGHTS = Set(0, 1, 3), STARTS = Set(-1, 0, 2), POINTS = Set(2, 3, 4)).* }
module custom_mct { import custom_mc(CELLS = 4, WEIGHTS = Set(0, 1, 2, 5), STARTS = Set(-3, -2, -1, 0, 2), POINTS = Set(2, 3, 4, 6)).* }
