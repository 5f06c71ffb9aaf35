/// Trace specification of resonances (C04 - C08). Field 0 is the kind of the event, see the comments of each clause.
module resonance_trace {
  import num.* from "./num"
  import shapes.* from "./shapes"

  pure val E12: int = 10^12
  pure val E9: int = 10^9

  /// C06. 1 kind twoJ0 twoJ2 E0 E2 recoilAmu|None w0 wf|None n w*n | width Er g br area
  pure def judgeScheme(ev: int): str = {
    val n = ifl(ev, 9)
    val o = 10 + n
    val e0 = fld(ev, 4)
    val e2 = fld(ev, 5)
    val de = e2 - e0
    val er = if (fin(ev, 6)) recoilEnergy(de, fld(ev, 6)) else de
    val w = suml(flds(ev, 10, n))
    val br = if (fin(ev, 8)) fdiv(fld(ev, 8), w) else ONE
    val twoJ0 = ifl(ev, 2)
    val twoJ2 = ifl(ev, 3)
    val slack = maxi(abs(e0), abs(e2)) / 2^50
    val want = area(er, twoJ0, twoJ2, fld(ev, 7), br)
    if (not(allFin(ev, o, 5))) "level scheme: a result is not a number"
    else if (not(close(fld(ev, o), w, E12, 0))) "total width is not the sum of the partial widths"
    else if (abs(fld(ev, o + 1) - er) > slack) "resonance energy is wrong"
    else if (not(close(fld(ev, o + 2), fdiv((twoJ2 + 1) * ONE, (twoJ0 + 1) * ONE), E12, 0))) "statistical factor is wrong"
    else if (not(close(fld(ev, o + 3), br, E12, 0))) "branching ratio is wrong"
    else if (not(close(fld(ev, o + 4), want, 10^8, fmul(want, fdiv(slack, er) * 4))))
      "energy-integrated cross section is wrong"
    else ""
  }

  /// C06. 2 n area_f*n area: restricted cross sections add up to the unrestricted one
  pure def judgeSum(ev: int): str = {
    val n = ifl(ev, 1)
    if (not(allFin(ev, 2, n + 1))) "level scheme: a result is not a number"
    else if (not(close(suml(flds(ev, 2, n)), fld(ev, 2 + n), 10^11, 0))) "final states do not add up to the total"
    else ""
  }

  /// C07. 3 kind twoJ0 twoJ2 E0 E2 w0 wf|None width amu T relative E | value
  pure def judgeValue(ev: int): str = {
    val kind = ifl(ev, 1)
    val er = fld(ev, 5) - fld(ev, 4)
    val width = fld(ev, 8)
    val br = if (fin(ev, 7)) fdiv(fld(ev, 7), width) else ONE
    val a = area(er, ifl(ev, 2), ifl(ev, 3), fld(ev, 6), br)
    val d = if (ifl(ev, 11) == 1) fld(ev, 12) else fld(ev, 12) - er
    val want = fmul(a, pdf(kind, d, er, width, fld(ev, 9), fld(ev, 10)))
    if (not(fin(ev, 13))) "cross section is not a number"
    else if (kind == 0 and abs(abs(d) - HALF) < ONE / 2^40) {
      // at the edge of the box, rounding decides
      if (fld(ev, 13) == 0 or close(fld(ev, 13), a, 10^8, 0)) "" else "cross section does not have the documented line shape"
    }
    else if (not(close(fld(ev, 13), want, 10^8, ONE / 10^40))) "cross section does not have the documented line shape"
    else ""
  }

  /// C07. 4 n x*n y*n: array and single evaluations
  pure def judgeSame(ev: int): str = {
    val n = ifl(ev, 1)
    if (nf(ev) != 2 + 2 * n) "array result has a wrong size"
    else if (range(0, n).foldl(true, (a, k) =>
      a and fin(ev, 2 + k) and fin(ev, 2 + n + k) and close(fld(ev, 2 + k), fld(ev, 2 + n + k), E12, ONE / 10^60))) ""
    else "array and single evaluation differ"
  }

  /// C07. 5 pseudo voigt voigtMaximum
  pure def judgeApprox(ev: int): str =
    if (not(allFin(ev, 1, 3))) "cross section is not a number"
    else if (abs(fld(ev, 1) - fld(ev, 2)) > fmul(dec(13, 3), fld(ev, 3))) "pseudo-Voigt deviates from Voigt by more than 1.3 percent of the maximum"
    else ""

  /// C08. 6 Er width amu T E | cumulative probability
  pure def judgeCdf(ev: int): str = {
    val er = fld(ev, 1)
    val x = mixture(sigma(er, fld(ev, 3), fld(ev, 4)), fld(ev, 2))
    val want =
      if (tag(ev, 5) == PINF) ONE
      else if (tag(ev, 5) == NINF) 0
      else mixCdf(fld(ev, 5) - er, x)
    if (not(fin(ev, 6))) "cumulative probability is not a number"
    else if (abs(fld(ev, 6) - want) > ONE / 10^9) "cumulative probability is wrong"
    else ""
  }

  /// C08. 7 Er width amu T | density at E: 5 E, 6 value
  pure def judgePdf(ev: int): str = {
    val er = fld(ev, 1)
    val want = mixPdf(fld(ev, 5) - er, mixture(sigma(er, fld(ev, 3), fld(ev, 4)), fld(ev, 2)))
    if (not(fin(ev, 6))) "density is not a number"
    else if (not(close(fld(ev, 6), want, E9, ONE / 10^40))) "density is wrong"
    else ""
  }

  pure def ftan(x: int): int = fdiv(fsin(x), fcos(x))
  /// C08. 8 Er width amu T warned | q x silent
  /// silent: the quantile alone was answered with a warning, the array that contains it without one
  pure def judgeQuantile(ev: int): str = {
    val er = fld(ev, 1)
    val m = mixture(sigma(er, fld(ev, 3), fld(ev, 4)), fld(ev, 2))
    val q = fld(ev, 6)
    val x = fld(ev, 7)
    val slack = fmul(mixPdf(0, m), abs(er)) / 2^49
    if (ifl(ev, 8) == 1) "no warning for an array with a quantile whose inversion does not converge"
    // q = 0 and q = 1 may also be answered by infinity
    else if (tag(ev, 7) == NINF) (if (q == 0) "" else "quantile is minus infinity")
    else if (tag(ev, 7) == PINF) (if (q == ONE) "" else "quantile is infinity")
    else if (not(fin(ev, 7))) "quantile is not a number"
    // a converged inversion is wrong by a small part of the width at most, also where the density is small
    else if (ifl(ev, 5) == 0)
      (if (abs(mixCdf(x - er, m) - q) <= mini(ONE / (5 * 10^6) + slack, fmul(mixPdf(x - er, m), m.g / 200 + abs(er) / 2^49) + ONE / 10^12)) ""
       else "quantile function is not the inverse of the cumulative distribution")
    else if (abs(mixCdf(x - er, m) - q) <= ONE / (5 * 10^6) + slack) ""
    else if (q <= 0 or q >= ONE) "quantile function is not the inverse of the cumulative distribution"
    else {
      // approximation after a warning: linear combination of the quantiles of both components
      val c = fmul(m.g, ftan(fmul(PI, q - HALF)))
      val g = fdiv(x - er - fmul(m.eta, c), ONE - m.eta)
      if (abs(gaussCdf(g, m.s) - q) <= ONE / 10^6 + slack) ""
      else "quantile is neither the inverse nor the documented approximation"
    }
  }

  /// C08. 9 n x*n: non-decreasing
  pure def judgeMonotone(ev: int): str = {
    val n = ifl(ev, 1)
    if (range(1, n).foldl(true, (a, k) =>
      a and (tag(ev, 1 + k) == NINF or tag(ev, 2 + k) == PINF or (fin(ev, 1 + k) and fin(ev, 2 + k) and fld(ev, 1 + k) <= fld(ev, 2 + k) + fld(ev, 2 + n))))) ""
    else "values are not non-decreasing"
  }

  pure def sharesOk(fs: List[int], tol: int): bool = {
    val n = fs.length()
    val share = (fs[n - 1] - fs[0]) / (n - 1)
    range(1, n).foldl(true, (a, k) => a and abs(fs[k] - fs[k - 1] - share) <= tol)
  }
  /// distances from the resonance energy; infinite energies are replaced by a distance that is far away
  pure def dists(ev: int, k: int, n: int, er: int): List[int] =
    range(k, k + n).foldl([], (a, i) =>
      a.append(if (tag(ev, i) == PINF) 10^30 * ONE else if (tag(ev, i) == NINF) -(10^30) * ONE else fld(ev, i) - er))

  /// tolerance for probabilities computed by the library
  pure def probTol(kind: int, er: int, width: int, amu: int, t: int): int =
    (if (kind >= 3) ONE / 5000000 else ONE / 10^9) + fmul(peak(kind, er, width, amu, t), abs(er)) / 2^48

  /// C04. 10 kind Er width amu T mode a b n m point*m; mode 0: limits a, b; mode 1: coverage a
  pure def judgeGrid(ev: int): str = {
    val kind = ifl(ev, 1)
    val er = fld(ev, 2)
    val width = fld(ev, 3)
    val amu = fld(ev, 4)
    val t = fld(ev, 5)
    val limits = ifl(ev, 6) == 0
    val a = fld(ev, 7)
    val b = fld(ev, 8)
    val n = ifl(ev, 9)
    val m = ifl(ev, 10)
    val tol = probTol(kind, er, width, amu, t)
    val ds = dists(ev, 11, m, er)
    if (n != m) "probability grid has a wrong number of points"
    else if (range(11, 11 + m).foldl(false, (x, k) => x or tag(ev, k) == NAN or tag(ev, k) == NONE)) "probability grid contains a value that is not a number"
    else if (not(range(1, m).foldl(true, (x, k) => x and ds[k - 1] <= ds[k] + (if (limits) 0 else abs(er) / 2^50)))) "probability grid is not non-decreasing"
    else if (limits) {
      if (not(allFin(ev, 11, m))) "probability grid contains an infinite energy"
      else if (fld(ev, 11) != a or fld(ev, 10 + m) != b) "probability grid does not start and end at the limits"
      else if (not(range(11, 11 + m).foldl(true, (x, k) => x and a <= fld(ev, k) and fld(ev, k) <= b))) "probability grid leaves the limits"
      else if (not(sharesOk(cdfs(kind, ds, er, width, amu, t), tol))) "intervals of the probability grid have different shares"
      else ""
    }
    else {
      val fs = cdfs(kind, ds, er, width, amu, t)
      if (abs(fs[0] - (ONE - a) / 2) > tol or abs(fs[m - 1] - (ONE + a) / 2) > tol) "probability grid does not span the central quantiles"
      else if (not(sharesOk(fs, tol))) "intervals of the probability grid have different shares"
      else ""
    }
  }

  /// C05. 11 kind Er width amu T c | l0 l1 nNegativeWarnings nInfiniteWarnings percent|None
  pure def judgeCoverage(ev: int): str = {
    val kind = ifl(ev, 1)
    val er = fld(ev, 2)
    val width = fld(ev, 3)
    val amu = fld(ev, 4)
    val t = fld(ev, 5)
    val c = fld(ev, 6)
    val q0 = (ONE - c) / 2
    val q1 = (ONE + c) / 2
    val tol = probTol(kind, er, width, amu, t)
    val fs = cdfs(kind, [-er].concat(dists(ev, 7, 2, er)), er, width, amu, t)
    val f0 = fs[0]
    val clamped = f0 > q0 + tol or (kind > 0 and q0 == 0)
    val unclamped = f0 < q0 - tol or (f0 == 0 and kind == 0)
    if (tag(ev, 7) != FIN) "lower limit of a coverage interval is not finite"
    else if (tag(ev, 8) != FIN and tag(ev, 8) != PINF) "upper limit of a coverage interval is not a number"
    else if (fld(ev, 7) < 0) "lower limit of a coverage interval is negative"
    else if (clamped and (fld(ev, 7) != 0)) "lower limit of a coverage interval is not replaced by zero"
    else if (clamped and ifl(ev, 9) != 1) "replacement of the lower limit is not announced by one warning"
    else if (unclamped and ifl(ev, 9) != 0) "warning about a negative limit without need"
    else if (unclamped and abs(fs[1] - q0) > tol) "lower limit of a coverage interval is not the quantile"
    else if (abs(fs[2] - q1) > tol) "upper limit of a coverage interval is not the quantile"
    else if (tag(ev, 8) == PINF and (kind == 0 or q1 < ONE - tol)) "upper limit of a coverage interval is infinite without need"
    else if ((tag(ev, 8) == PINF) != (ifl(ev, 10) == 1)) "infinite upper limit and warning do not agree"
    else if (clamped and tag(ev, 11) != NONE and abs(fld(ev, 11) - 100 * (ONE - f0)) > 100 * tol + ONE / 500000) "warning states a wrong maximum coverage"
    else if (c == 0 and tag(ev, 8) == FIN and ifl(ev, 9) == 0 and abs(fs[1] - HALF) > tol) "interval of zero coverage is not the median"
    else ""
  }

  /// C05. 12 l0 l1 n m point*m: energy grid requested by coverage, and the coverage interval
  pure def judgeEnergyGrid(ev: int): str = {
    val lo = fld(ev, 1)
    val hi = fld(ev, 2)
    val n = ifl(ev, 3)
    val m = ifl(ev, 4)
    val tol = maxi(abs(lo), abs(hi)) / 2^49
    if (n != m) "energy grid has a wrong number of points"
    else if (not(allFin(ev, 5, m))) "energy grid contains a value that is not finite"
    else if (range(0, n).foldl(true, (a, i) =>
        a and abs(fld(ev, 5 + i) - (if (n == 1) lo else lo + (hi - lo) * i / (n - 1))) <= tol)) ""
    else "energy grid does not span the coverage interval"
  }

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    if (k == 1) judgeScheme(ev)
    else if (k == 2) judgeSum(ev)
    else if (k == 3) judgeValue(ev)
    else if (k == 4) judgeSame(ev)
    else if (k == 5) judgeApprox(ev)
    else if (k == 6) judgeCdf(ev)
    else if (k == 7) judgePdf(ev)
    else if (k == 8) judgeQuantile(ev)
    else if (k == 9) judgeMonotone(ev)
    else if (k == 10) judgeGrid(ev)
    else if (k == 11) judgeCoverage(ev)
    else if (k == 12) judgeEnergyGrid(ev)
    else "trace: unknown event"
  }
}
