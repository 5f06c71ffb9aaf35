/// Trace specification of resonances with user-defined line shapes (C19). The values of the line shape are recorded from
/// the user's functions; the specification decides what the library has to make of them.
module custom_trace {
  import num.* from "./num"

  pure val HBARC: int = dec(1973269804593, 10)

  /// energy-integrated cross section: energy, twice the spins of the initial and the intermediate state, width
  pure def area(e: int, j0: int, j2: int, width: int): int =
    fdiv(fmul(fmul(sq(fmul(PI, HBARC)), width) * (j2 + 1) / (j0 + 1), ONE), sq(e))

  /// points x with cumulative values F and densities f from field o, the expected value at point i is want[i]
  pure def sharesOk(ev: int, o: int, n: int, span: int, want: List[int]): bool =
    range(0, n).foldl(true, (ok, i) => ok and {
      val k = o + 3 * i
      val rounding = if (fin(ev, k) and fin(ev, k + 2)) fmul(fld(ev, k + 2), abs(fld(ev, k))) / 2^48 else 0
      fin(ev, k + 1) and abs(fld(ev, k + 1) - want[i]) <= span / 10^8 + ONE / 10^12 + rounding
    })
  pure def orderedFrom(ev: int, o: int, n: int): bool =
    range(1, n).foldl(true, (ok, i) => ok and fld(ev, o + 3 * i - 3) <= fld(ev, o + 3 * i))
  pure def pointsFin(ev: int, o: int, n: int): bool = range(0, n).foldl(true, (ok, i) => ok and fin(ev, o + 3 * i))

  /// 1 E twoJ0 twoJ2 width density | value
  pure def judgeValue(ev: int): str = {
    val want = fmul(area(fld(ev, 1), ifl(ev, 2), ifl(ev, 3), fld(ev, 4)), fld(ev, 5))
    if (not(fin(ev, 6))) "cross section is not a number"
    else if (not(close(fld(ev, 6), want, 10^8, ONE / 10^60))) "cross section is not the strength times the user's density"
    else ""
  }
  /// 2 n a b F(a) F(b) m | (x F f)*m: grid between limits
  pure def judgeGrid(ev: int): str = {
    val n = ifl(ev, 1)
    val fa = fld(ev, 4)
    val fb = fld(ev, 5)
    val want = range(0, n).foldl([], (l, i) => l.append(fa + (fb - fa) * i / (n - 1)))
    if (ifl(ev, 6) != n) "grid has a wrong number of points"
    else if (not(pointsFin(ev, 7, n))) "grid contains an infinite energy"
    else if (raw(ev, 7) != raw(ev, 2) or raw(ev, 7 + 3 * (n - 1)) != raw(ev, 3)) "grid does not start and end at the limits"
    else if (not(orderedFrom(ev, 7, n))) "grid is not in order"
    else if (not(sharesOk(ev, 7, n, fb - fa, want))) "intervals of the grid have different shares of the user's distribution"
    else ""
  }
  /// 3 n c m | (x F f)*m: grid with a coverage
  pure def judgeCoverageGrid(ev: int): str = {
    val n = ifl(ev, 1)
    val c = fld(ev, 2)
    val want = range(0, n).foldl([], (l, i) => l.append((ONE - c) / 2 + c * i / (n - 1)))
    if (ifl(ev, 3) != n) "grid has a wrong number of points"
    else if (pointsFin(ev, 4, n) and not(orderedFrom(ev, 4, n))) "grid is not in order"
    else if (not(sharesOk(ev, 4, n, c, want))) "intervals of the grid have different shares of the user's distribution"
    else ""
  }
  /// 4 c lower upper F(0) | lower upper negative infinite percent: coverage interval, the user's quantiles come first
  pure def judgeInterval(ev: int): str = {
    val low = if (fin(ev, 2)) fld(ev, 2) else -1
    val clamped = low < 0
    val scale = if (fin(ev, 2) and fin(ev, 3)) abs(fld(ev, 3) - fld(ev, 2)) / 10^8 + (abs(fld(ev, 2)) + abs(fld(ev, 3))) / 10^13
                else if (fin(ev, 2)) abs(fld(ev, 2)) / 10^8 else 0
    val upperOk = if (fin(ev, 3)) fin(ev, 6) and abs(fld(ev, 6) - fld(ev, 3)) <= scale + abs(fld(ev, 3)) / 10^8 else tag(ev, 6) == tag(ev, 3)
    if (not(fin(ev, 5))) "lower limit is not a number"
    else if (abs(fld(ev, 5) - maxi(0, low)) > scale) "lower limit is not the user's quantile"
    else if (fld(ev, 5) < 0) "lower limit is negative"
    else if (not(upperOk)) "upper limit is not the user's quantile"
    else if (ifl(ev, 7) != (if (clamped) 1 else 0)) "warning about a negative lower limit is wrong"
    else if (ifl(ev, 8) != (if (fin(ev, 3)) 0 else 1)) "warning about an infinite upper limit is wrong"
    else if (clamped and (not(fin(ev, 9)) or abs(fld(ev, 9) - 100 * (ONE - fld(ev, 4))) > ONE / 10^6)) "stated maximum coverage is wrong"
    else ""
  }
  /// 5 lower upper n m | x*m: equidistant grid for the same coverage as an interval
  pure def judgeEnergyGrid(ev: int): str = {
    val n = ifl(ev, 3)
    val a = fld(ev, 1)
    val d = fld(ev, 2) - a
    if (ifl(ev, 4) != n) "energy grid has a wrong number of points"
    else if (not(allFin(ev, 5, n))) "energy grid contains an infinite energy"
    else if (range(0, n).foldl(true, (ok, i) => ok and abs(fld(ev, 5 + i) - a - d * i / maxi(1, n - 1)) <= (abs(a) + abs(d)) / 10^13)) ""
    else "energy grid does not divide the coverage interval evenly"
  }

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    if (k == 1) judgeValue(ev)
    else if (k == 2) judgeGrid(ev)
    else if (k == 3) judgeCoverageGrid(ev)
    else if (k == 4) judgeInterval(ev)
    else if (k == 5) judgeEnergyGrid(ev)
    else "trace: unknown event"
  }
}
