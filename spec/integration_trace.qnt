/// Trace specification of the integration methods (C13, C14).
module integration_trace {
  import num.* from "./num"

  pure def lower(xs: List[int], fs: List[int]): int =
    range(0, xs.length() - 1).foldl(0, (s, i) => s + fmul(mini(fs[i], fs[i + 1]), xs[i + 1] - xs[i]))
  pure def upper(xs: List[int], fs: List[int]): int =
    range(0, xs.length() - 1).foldl(0, (s, i) => s + fmul(maxi(fs[i], fs[i + 1]), xs[i + 1] - xs[i]))
  /// scale of the rounding errors
  pure def extent(xs: List[int], fs: List[int]): int =
    range(0, xs.length() - 1).foldl(0, (s, i) => s + fmul(maxi(abs(fs[i]), abs(fs[i + 1])), xs[i + 1] - xs[i] + (abs(xs[i]) + abs(xs[i + 1])) / 10^3))

  pure def powi(x: int, n: int): int = range(0, n).foldl(ONE, (a, i) => fmul(a, x))
  pure def cubic(c: List[int], x: int): int = c[0] + fmul(c[1], x) + fmul(c[2], powi(x, 3))
  pure def cubicInt(c: List[int], x: int): int = fmul(c[0], x) + fmul(c[1], sq(x)) / 2 + fmul(c[2], powi(x, 4)) / 4

  /// C13. 1 n x*n f*n | lower difference
  pure def judgeSums(ev: int): str = {
    val n = ifl(ev, 1)
    val xs = flds(ev, 2, n)
    val fs = flds(ev, 2 + n, n)
    val o = 2 + 2 * n
    val l = lower(xs, fs)
    val tol = extent(xs, fs) / 10^12
    if (nf(ev) != o + 2 or not(allFin(ev, o, 2))) "Darboux sum is not a number"
    else if (abs(fld(ev, o) - l) > tol) "lower Darboux sum is wrong"
    else if (abs(fld(ev, o + 1) - (upper(xs, fs) - l)) > 2 * tol) "difference of the Darboux sums is wrong"
    else ""
  }
  /// C13. 2 c0 c1 c2 a b slack | lower difference: the function c0 + c1 x + c2 x^3, monotonic for c1 c2 >= 0
  pure def judgeBracket(ev: int): str = {
    val c = flds(ev, 1, 3)
    val i = cubicInt(c, fld(ev, 5)) - cubicInt(c, fld(ev, 4))
    val slack = fld(ev, 6)
    if (not(allFin(ev, 7, 2))) "Darboux sum is not a number"
    else if (fmul(c[1], c[2]) < 0) "trace: function is not monotonic"
    else if (fld(ev, 7) > i + slack) "integral is below the lower Darboux sum"
    else if (fld(ev, 7) + fld(ev, 8) < i - slack) "integral is above the upper Darboux sum"
    else ""
  }
  /// C13. 3 slack lower difference | lower difference after a refinement of the grid
  pure def judgeRefine(ev: int): str =
    if (not(allFin(ev, 2, 4))) "Darboux sum is not a number"
    else if (fld(ev, 4) < fld(ev, 2) - fld(ev, 1)) "refinement lowers the lower Darboux sum"
    else if (fld(ev, 4) + fld(ev, 5) > fld(ev, 2) + fld(ev, 3) + fld(ev, 1)) "refinement raises the upper Darboux sum"
    else ""
  /// C13, C14. 4 n a*n b*n: arguments before and after the call
  pure def judgeArgs(ev: int): str = {
    val n = ifl(ev, 1)
    if (nf(ev) != 2 + 2 * n) "an argument changed its size"
    else if (range(0, n).foldl(true, (a, i) => a and raw(ev, 2 + i) == raw(ev, 2 + n + i))) ""
    else "an argument was modified"
  }

  /// C13. 8 n h c d | lower difference: the values c + d i at n points with distances h
  pure def judgeLong(ev: int): str = {
    val n = ifl(ev, 1)
    val h = fld(ev, 2)
    val c = ifl(ev, 3)
    val d = ifl(ev, 4)
    val l = h * ((n - 1) * c + d * (if (d < 0) (n - 1) * n / 2 else (n - 1) * (n - 2) / 2))
    val tol = h * (n - 1) * (abs(c) + abs(d) * n) / 10^11
    if (not(allFin(ev, 5, 2))) "Darboux sum is not a number"
    else if (abs(fld(ev, 5) - l) > tol) "lower Darboux sum on a long grid is wrong"
    else if (abs(fld(ev, 6) - h * abs(d) * (n - 1)) > tol) "difference of the Darboux sums on a long grid is wrong"
    else ""
  }

  /// integral of x^k from a to b
  pure def mono(a: int, b: int, k: int): int = (powi(b, k + 1) - powi(a, k + 1)) / (k + 1)
  /// C14. 5 dim terms (c p0 .. p(dim-1))*terms (a b)*dim | integral
  pure def judgePoly(ev: int): str = {
    val d = ifl(ev, 1)
    val t = ifl(ev, 2)
    val o = 3 + t * (1 + d)
    val vals = range(0, t).foldl([], (l, i) => {
      val k = 3 + i * (1 + d)
      l.append(range(0, d).foldl(fld(ev, k), (acc, j) => fmul(acc, mono(fld(ev, o + 2 * j), fld(ev, o + 2 * j + 1), ifl(ev, k + 1 + j)))))
    })
    val bound = range(0, t).foldl(0, (s, i) => {
      val k = 3 + i * (1 + d)
      s + range(0, d).foldl(abs(fld(ev, k)), (acc, j) => {
        val m = maxi(abs(fld(ev, o + 2 * j)), abs(fld(ev, o + 2 * j + 1)))
        fmul(acc, 2 * powi(m, ifl(ev, k + 1 + j) + 1))
      })
    })
    val r = o + 2 * d
    if (not(fin(ev, r))) "integral is not a number"
    else if (abs(fld(ev, r) - suml(vals)) > bound / 10^9 + ONE / 10^60) "integral of a polynomial is wrong"
    else ""
  }
  /// C14. 6 n (integral error)*n | integral error: intervals, and the entire partition
  pure def judgeParts(ev: int): str = {
    val n = ifl(ev, 1)
    val o = 2 + 2 * n
    val i = range(0, n).foldl(0, (s, k) => s + fld(ev, 2 + 2 * k))
    val scale = range(0, n).foldl(0, (s, k) => s + abs(fld(ev, 2 + 2 * k)))
    val e2 = range(0, n).foldl(0, (s, k) => s + sq(fld(ev, 3 + 2 * k)))
    if (not(allFin(ev, 2, 2 * n + 2))) "integral is not a number"
    else if (abs(fld(ev, o) - i) > scale / 10^11) "integral is not the sum over the intervals"
    else if (fld(ev, o + 1) < 0) "error estimate is negative"
    else if (not(close(sq(fld(ev, o + 1)), e2, 10^9, ONE / 10^70))) "error estimate is not the root of the summed squares"
    else ""
  }
  /// C14. 7 x0 gamma a b | integral of a Cauchy density with a narrow peak
  pure def judgePeak(ev: int): str = {
    val want = fdiv(fatan(fdiv(fld(ev, 4) - fld(ev, 1), fld(ev, 2))) - fatan(fdiv(fld(ev, 3) - fld(ev, 1), fld(ev, 2))), PI)
    if (not(fin(ev, 5))) "integral is not a number"
    else if (abs(fld(ev, 5) - want) > ONE / 10^6) "integral of a narrow peak is wrong"
    else ""
  }

  /// C14. 9 n x*(n+1) value*n | integral: a function which is constant in each interval of the partition
  pure def judgeSteps(ev: int): str = {
    val n = ifl(ev, 1)
    val parts = range(0, n).foldl([], (l, i) => l.append(fmul(fld(ev, 3 + i) - fld(ev, 2 + i), fld(ev, 3 + n + i))))
    if (not(fin(ev, 3 + 2 * n))) "integral is not a number"
    else if (abs(fld(ev, 3 + 2 * n) - suml(parts)) > parts.foldl(0, (s, v) => s + abs(v)) / 10^11) "integral of a step function is wrong"
    else ""
  }
  /// C14. 10 k a sign | integral of k / |x|^(k + 1) from a to infinity (or from minus infinity to -a), times the sign of the direction
  pure def judgeInfinite(ev: int): str = {
    val want = ifl(ev, 3) * fdiv(ONE, powi(fld(ev, 2), ifl(ev, 1)))
    if (not(fin(ev, 4))) "integral is not a number"
    else if (abs(fld(ev, 4) - want) > ONE / 10^7 + abs(want) / 10^7) "integral with an infinite limit is wrong"
    else ""
  }
  /// C14. 11 p c g a b ya yb other | integral of x^p g / (g^2 + (y - c)^2) over x from a to b, y from ya to yb, and ranges of
  /// the remaining coordinates with the volume other
  pure def judgeInner(ev: int): str = {
    val p = ifl(ev, 1)
    val g = fld(ev, 3)
    val x = (powi(fld(ev, 5), p + 1) - powi(fld(ev, 4), p + 1)) / (p + 1)
    val y = fatan(fdiv(fld(ev, 7) - fld(ev, 2), g)) - fatan(fdiv(fld(ev, 6) - fld(ev, 2), g))
    if (not(fin(ev, 9))) "integral is not a number"
    else if (abs(fld(ev, 9) - fmul(fmul(x, y), fld(ev, 8))) > ONE / 10^6) "integral of a function with a peak in another coordinate is wrong"
    else ""
  }

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    if (k == 1) judgeSums(ev)
    else if (k == 2) judgeBracket(ev)
    else if (k == 3) judgeRefine(ev)
    else if (k == 4) judgeArgs(ev)
    else if (k == 5) judgePoly(ev)
    else if (k == 6) judgeParts(ev)
    else if (k == 7) judgePeak(ev)
    else if (k == 8) judgeLong(ev)
    else if (k == 9) judgeSteps(ev)
    else if (k == 10) judgeInfinite(ev)
    else if (k == 11) judgeInner(ev)
    else "trace: unknown event"
  }
}
