/// Fixed-point real arithmetic on arbitrary-precision integers.
/// A real number r is represented by the integer r * 2^256.
module num {
  pure val ONE: int = 2^256

  pure def i2f(n: int): int = n * ONE
  /// decimal constant d * 10^(-k)
  pure def dec(d: int, k: int): int = d * ONE / 10^k
  pure def fmul(a: int, b: int): int = a * b / ONE
  pure def fdiv(a: int, b: int): int = a * ONE / b
  pure def sq(a: int): int = a * a / ONE
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def maxi(a: int, b: int): int = if (a < b) b else a
  pure def mini(a: int, b: int): int = if (a < b) a else b

  pure val PI: int = 3141592653589793238462643383279502884197169399375105820974944592307816406286208998628034825 * ONE / 10^90
  pure val LN2: int = 693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996 * ONE / 10^93
  pure val HALF: int = ONE / 2

  /// number of binary digits of a non-negative integer below 2^2048
  pure def bits(n: int): int =
    [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl(0, (acc, s) =>
      if (n >= 2^(acc + s - 1)) acc + s else acc)

  /// floor of the square root of an integer, up to one unit
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else {
      val x0 = 2^(bits(n) / 2 + 1)
      range(0, 14).foldl(x0, (x, i) => (x + n / x) / 2)
    }
  pure def fsqrt(a: int): int = isqrt(a * ONE)

  /// exponential function
  pure def fexp(x: int): int =
    if (x < -200 * ONE) 0
    else {
      val n = if (x >= 0) (x + LN2 / 2) / LN2 else -((-x + LN2 / 2) / LN2)
      val r = x - n * LN2
      val s = range(1, 30).foldl({ t: ONE, s: ONE }, (acc, k) => {
        val t = acc.t * r / ONE / k
        { t: t, s: acc.s + t }
      })
      if (n >= 0) s.s * 2^n else s.s / 2^(-n)
    }

  /// natural logarithm of a positive number
  pure def fln(x: int): int = {
    val n0 = bits(x) - 257
    val m0 = if (n0 >= 0) x / 2^n0 else x * 2^(-n0)
    val big = m0 * 100 > 141 * ONE
    val m = if (big) m0 / 2 else m0
    val n = if (big) n0 + 1 else n0
    val t = (m - ONE) * ONE / (m + ONE)
    val t2 = sq(t)
    val s = range(0, 28).foldl({ p: t, s: 0 }, (acc, k) =>
      { p: fmul(acc.p, t2), s: acc.s + acc.p / (2 * k + 1) })
    2 * s.s + n * LN2
  }
  /// x^y for positive x
  pure def fpow(x: int, y: int): int = fexp(fmul(y, fln(x)))

  pure def modPi(x: int): int = {
    val t = 2 * PI
    val n = if (x >= 0) (x + PI) / t else -((-x + PI) / t)
    x - n * t
  }
  pure def fsin(x0: int): int = {
    val x = modPi(x0)
    val x2 = sq(x)
    range(1, 34).foldl({ t: x, s: x }, (acc, k) => {
      val t = -(acc.t * x2 / ONE / (2 * k * (2 * k + 1)))
      { t: t, s: acc.s + t }
    }).s
  }
  pure def fcos(x0: int): int = {
    val x = modPi(x0)
    val x2 = sq(x)
    range(1, 34).foldl({ t: ONE, s: ONE }, (acc, k) => {
      val t = -(acc.t * x2 / ONE / (2 * k * (2 * k - 1)))
      { t: t, s: acc.s + t }
    }).s
  }

  pure def atanHalf(x: int): int = fdiv(x, ONE + fsqrt(ONE + sq(x)))
  /// arc tangent
  pure def fatan(x: int): int = {
    val a = abs(x)
    val big = a > ONE
    val b = atanHalf(atanHalf(if (big) fdiv(ONE, a) else a))
    val b2 = sq(b)
    val s = 4 * range(0, 32).foldl({ p: b, s: 0 }, (acc, k) => {
      { p: -fmul(acc.p, b2), s: acc.s + acc.p / (2 * k + 1) }
    }).s
    val r = if (big) PI / 2 - s else s
    if (x < 0) -r else r
  }

  /// error function
  pure def ferf(x: int): int = {
    val a = abs(x)
    val r =
      if (a > 7 * ONE) ONE
      else {
        val x2 = sq(a)
        val n = 40 + 4 * x2 / ONE
        val s = range(0, n).foldl({ t: a, s: a }, (acc, k) => {
          val t = acc.t * 2 * x2 / ONE / (2 * k + 3)
          { t: t, s: acc.s + t }
        })
        fmul(fdiv(2 * fexp(-x2), fsqrt(PI)), s.s)
      }
    if (x < 0) -r else r
  }

  // Real part of the Faddeeva function w(x + i y), y > 0: trapezoidal rule with step h = 2/5 and the contribution of the pole.
  pure val FH: int = 2 * ONE / 5
  pure val FW: List[int] = range(0, 34).foldl([], (acc, n) => acc.append(fexp(-(n * n * sq(FH)))))
  pure def rew(x: int, y: int): int = {
    val y2 = sq(y)
    val main = range(0, 34).foldl(0, (acc, n) => {
      val p = sq(x - n * FH) + y2
      val m = sq(x + n * FH) + y2
      val c = FW[n]
      acc + c * y / p + (if (n == 0) 0 else c * y / m)
    })
    val trap = fmul(fdiv(FH, PI), main)
    val d = sq(x) - y2
    if (fmul(y, FH) >= PI or d > 175 * ONE) trap
    else {
      // 2 exp(-z^2) / (1 - exp(-2 pi i z / h))
      val e = fexp(-d)
      val a = 2 * fmul(x, y)
      val nr = 2 * fmul(e, fcos(a))
      val ni = -2 * fmul(e, fsin(a))
      val g = fexp(fdiv(2 * fmul(PI, y), FH))
      val b = fdiv(2 * fmul(PI, x), FH)
      val dr = ONE - fmul(g, fcos(b))
      val di = fmul(g, fsin(b))
      trap + (nr * dr + ni * di) / ((dr * dr + di * di) / ONE)
    }
  }

  /// integral of t^3 (1/(e^t - 1) + 1/2) from 0 to z
  pure val BERN: List[(int, int)] = [(1, 6), (-1, 30), (1, 42), (-1, 30), (5, 66), (-691, 2730), (7, 6), (-3617, 510),
    (43867, 798), (-174611, 330), (854513, 138), (-236364091, 2730), (8553103, 6), (-23749461029, 870),
    (8615841276005, 14322), (-7709321041217, 510), (2577687858367, 6)]
  pure def debyeInt(z: int): int = {
    val z2 = sq(z)
    val z3 = fmul(z2, z)
    val z4 = sq(z2)
    if (z < 3 * ONE / 2) {
      // t^3/(e^t-1) = t^2 - t^3/2 + sum B_2k t^(2k+2)/(2k)!
      val s = range(1, 18).foldl({ p: fmul(z3, z2), f: 2, s: z3 / 3 }, (acc, k) => {
        val b = BERN[k - 1]
        { p: fmul(acc.p, z2), f: acc.f * (2 * k + 1) * (2 * k + 2), s: acc.s + acc.p * b._1 / (b._2 * acc.f * (2 * k + 3)) }
      })
      s.s
    } else {
      val rest = range(1, 45).foldl(0, (acc, k) =>
        acc + fmul(fexp(-(k * z)), z3 / k + 3 * z2 / (k * k) + 6 * z / (k * k * k) + 6 * ONE / (k * k * k * k)))
      sq(sq(PI)) / 15 - rest + z4 / 8
    }
  }

  // --- comparison ---
  /// |a - b| <= rel * |b| + tiny, with the relative tolerance given as 1 / inv
  pure def close(a: int, b: int, inv: int, tiny: int): bool = abs(a - b) <= abs(b) / inv + tiny

  // --- packed events ---
  // An event is one integer: the number of fields in the lowest 16 bits, then 96 bits per field.
  // A field holds a binary floating-point number: 64 bits mantissa, 16 bits exponent, 16 bits tag.
  pure val FIN: int = 0
  pure val PINF: int = 1
  pure val NINF: int = 2
  pure val NAN: int = 3
  pure val NONE: int = 4
  pure def nf(ev: int): int = ev % 2^16
  pure def raw(ev: int, k: int): int = (ev / 2^(16 + 96 * k)) % 2^96
  pure def tag(ev: int, k: int): int = raw(ev, k) / 2^80
  pure def fin(ev: int, k: int): bool = k < nf(ev) and tag(ev, k) == FIN
  /// integer field
  pure def ifl(ev: int, k: int): int = {
    val r = raw(ev, k)
    val m = r % 2^64 - 2^63
    val e = (r / 2^64) % 2^16 - 2^15
    if (e >= 0) m * 2^e else m / 2^(-e)
  }
  /// real field, as fixed-point number
  pure def fld(ev: int, k: int): int = {
    val r = raw(ev, k)
    val m = r % 2^64 - 2^63
    val e = (r / 2^64) % 2^16 - 2^15 + 256
    if (e >= 0) m * 2^e else m / 2^(-e)
  }
  /// fields k, k+1, ..., k+n-1 as a list of fixed-point numbers
  pure def flds(ev: int, k: int, n: int): List[int] = range(k, k + n).foldl([], (acc, i) => acc.append(fld(ev, i)))
  pure def allFin(ev: int, k: int, n: int): bool = range(k, k + n).foldl(true, (acc, i) => acc and fin(ev, i))

  pure def suml(l: List[int]): int = l.foldl(0, (a, b) => a + b)
}
