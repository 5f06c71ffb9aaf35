/// Trace specification of reaction rates on equal-probability grids (C16).
module rates_trace {
  import num.* from "./num"
  import shapes.* from "./shapes"

  /// probability of a line shape between two distances from the resonance energy, and its uncertainty
  pure def share(kind: int, a: int, b: int, er: int, width: int, amu: int, t: int): (int, int) =
    if (kind < 4) {
      val p = cdfs(kind, [a, b], er, width, amu, t)
      (p[1] - p[0], 0)
    } else {
      // Far away from its centre, a Voigt profile is a Cauchy distribution up to terms of second order.
      // The trace contains only ranges with this property.
      val c = cdfs(1, [a, b], er, width, amu, t)
      val s = sigma(er, amu, t)
      val r = fdiv(s, mini(-a, b))
      (c[1] - c[0], 10 * fmul(ONE - c[1] + c[0], sq(r)))
    }
  pure def far(kind: int, a: int, b: int, er: int, amu: int, t: int): bool =
    kind < 4 or (a < 0 and b > 0 and mini(-a, b) > 12 * sigma(er, amu, t))

  /// integral between the limits
  pure def rate(ev: int, o: int, a: int, b: int): (int, int) = {
    val er = fld(ev, o + 3)
    val width = fld(ev, o + 4)
    val i = area(er, ifl(ev, o + 1), ifl(ev, o + 2), width, ONE)
    val p = share(ifl(ev, o), a - er, b - er, er, width, fld(ev, o + 5), fld(ev, o + 6))
    (fmul(i, p._1), fmul(i, p._2) + fmul(i, fmul(peak(ifl(ev, o), er, width, fld(ev, o + 5), fld(ev, o + 6)), abs(er))) / 2^47)
  }
  pure def inDomain(ev: int, o: int, a: int, b: int): bool =
    far(ifl(ev, o), a - fld(ev, o + 3), b - fld(ev, o + 3), fld(ev, o + 3), fld(ev, o + 5), fld(ev, o + 6))

  /// 1 (kind twoJ0 twoJ2 Er width amu T) | grid a b, lower difference: one reaction that is monotonic on each interval
  pure def judgeBracket(ev: int): str = {
    val want = rate(ev, 1, fld(ev, 8), fld(ev, 9))
    val tol = want._2 + abs(want._1) / 10^9
    if (not(allFin(ev, 8, 4))) "result is not a number"
    else if (not(inDomain(ev, 1, fld(ev, 8), fld(ev, 9)))) "trace: range is too small for a Voigt profile"
    else if (fld(ev, 10) > want._1 + tol) "lower Darboux sum on the grid exceeds the integral"
    else if (fld(ev, 10) + fld(ev, 11) < want._1 - tol) "upper Darboux sum on the grid is below the integral"
    else if (fld(ev, 11) < 0) "difference of the Darboux sums is negative"
    else ""
  }

  /// The numerical integration has an absolute accuracy of about 10^-8 in each of the intervals.
  /// 2 n constant a b | integral, (factor kind twoJ0 twoJ2 Er width amu T)*n: combination of n reactions and a constant
  pure def judgeIntegral(ev: int): str = {
    val n = ifl(ev, 1)
    val a = fld(ev, 3)
    val b = fld(ev, 4)
    val parts = range(0, n).foldl([], (l, k) => l.append(rate(ev, 7 + 8 * k, a, b)))
    val want = range(0, n).foldl(fmul(fld(ev, 2), b - a), (s, k) => s + fmul(fld(ev, 6 + 8 * k), parts[k]._1))
    val scale = range(0, n).foldl(abs(fmul(fld(ev, 2), b - a)), (s, k) => s + abs(fmul(fld(ev, 6 + 8 * k), parts[k]._1)))
    val tol = range(0, n).foldl(scale / 10^6 + ONE / 10^6, (s, k) => s + abs(fmul(fld(ev, 6 + 8 * k), parts[k]._2)))
    if (not(allFin(ev, 3, 3))) "result is not a number"
    else if (not(range(0, n).foldl(true, (s, k) => s and inDomain(ev, 7 + 8 * k, a, b)))) "trace: range is too small for a Voigt profile"
    else if (abs(fld(ev, 5) - want) > tol) "integral on the grid is not the sum of the integrals of the reactions"
    else ""
  }

  /// 3 tol lower difference | lower difference on a grid with twice as many intervals
  pure def judgeFiner(ev: int): str =
    if (not(allFin(ev, 2, 4))) "result is not a number"
    else if (fld(ev, 4) < fld(ev, 2) - fld(ev, 1)) "a finer grid lowers the lower Darboux sum"
    else if (fld(ev, 4) + fld(ev, 5) > fld(ev, 2) + fld(ev, 3) + fld(ev, 1)) "a finer grid raises the upper Darboux sum"
    else ""

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    if (k == 1) judgeBracket(ev)
    else if (k == 2) judgeIntegral(ev)
    else if (k == 3) judgeFiner(ev)
    else "trace: unknown event"
  }
}
