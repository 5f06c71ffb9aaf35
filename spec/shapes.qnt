/// Definitions of level schemes, line shapes and thermal quantities.
module shapes {
  import num.* from "./num"

  // CODATA 2018, in MeV, fm and K
  pure val HBARC: int = dec(1973269804, 7)
  pure val KB: int = dec(8617333262, 20)
  pure val AMU: int = dec(93149410242, 8)

  // --- thermal motion ---
  /// Doppler width: E sqrt(2 k T / (m c^2))
  pure def dopplerWidth(e: int, amu: int, t: int): int = fmul(e, fsqrt(fdiv(2 * fmul(KB, t), fmul(amu, AMU))))
  pure def sigma(e: int, amu: int, t: int): int = fmul(e, fsqrt(fdiv(fmul(KB, t), fmul(amu, AMU))))
  /// temperature for a given Doppler width
  pure def temperature(d: int, amu: int, e: int): int = fdiv(fmul(fmul(amu, AMU), sq(fdiv(d, e))), 2 * KB)
  /// effective temperature in the Debye approximation: 3 T (T/T_D)^3 integral
  pure def debyeTeff(t: int, td: int): int = {
    val z = fdiv(td, t)
    fdiv(3 * fmul(t, debyeInt(z)), fmul(sq(z), z))
  }

  // --- level schemes ---
  pure def recoilEnergy(de: int, amu: int): int = de + fdiv(sq(de), 2 * fmul(amu, AMU))
  /// (pi hbar c)^2 / E^2 * g * Gamma_0 * branching ratio
  pure def area(er: int, twoJ0: int, twoJ2: int, w0: int, br: int): int = {
    val c = fdiv(fmul(PI, HBARC), er)
    fmul(fmul(sq(c), w0), br) * (twoJ2 + 1) / (twoJ0 + 1)
  }

  // --- line shapes, d is the distance from the resonance energy ---
  pure val SQRT2: int = fsqrt(2 * ONE)
  pure val SQRT2PI: int = fsqrt(2 * PI)
  pure def gaussPdf(d: int, s: int): int = fdiv(fexp(-(sq(fdiv(d, s)) / 2)), fmul(s, SQRT2PI))
  pure def gaussCdf(d: int, s: int): int = (ONE + ferf(fdiv(fdiv(d, s), SQRT2))) / 2
  pure def cauchyPdf(d: int, g: int): int = fdiv(fdiv(ONE, fmul(PI, g)), ONE + sq(fdiv(d, g)))
  pure def cauchyCdf(d: int, g: int): int = HALF + fdiv(fatan(fdiv(d, g)), PI)
  pure def boxPdf(d: int): int = if (abs(d) <= HALF) ONE else 0
  pure def boxCdf(d: int): int = maxi(0, mini(ONE, d + HALF))
  /// Voigt profile: convolution of a normal (s) and a Cauchy (g) distribution
  pure def voigtPdf(d: int, s: int, g: int): int = {
    val q = fmul(s, SQRT2)
    fdiv(rew(fdiv(d, q), fdiv(g, q)), fmul(s, SQRT2PI))
  }

  /// Parameters of the pseudo-Voigt mixture of Thompson, Cox and Hastings.
  type Mix = { eta: int, s: int, g: int }
  pure val FWHM: int = 2 * fsqrt(2 * LN2)
  pure def mixture(s: int, width: int): Mix = {
    val fg0 = fmul(FWHM, s)
    val m = maxi(fg0, width)
    val fg = fdiv(fg0, m)
    val fl = fdiv(width, m)
    val fg2 = sq(fg)
    val fl2 = sq(fl)
    val p = fmul(sq(fg2), fg) + fmul(dec(269269, 5), fmul(sq(fg2), fl)) + fmul(dec(242843, 5), fmul(fmul(fg2, fg), fl2))
      + fmul(dec(447163, 5), fmul(fg2, fmul(fl2, fl))) + fmul(dec(7842, 5), fmul(fg, sq(fl2))) + fmul(sq(fl2), fl)
    val f = fpow(p, ONE / 5)
    val r = fdiv(fl, f)
    val fwhm = fmul(f, m)
    { eta: fmul(dec(136603, 5), r) - fmul(dec(47719, 5), sq(r)) + fmul(dec(11116, 5), fmul(sq(r), r)),
      s: fdiv(fwhm, FWHM), g: fwhm / 2 }
  }
  pure def mixPdf(d: int, x: Mix): int = fmul(ONE - x.eta, gaussPdf(d, x.s)) + fmul(x.eta, cauchyPdf(d, x.g))
  pure def mixCdf(d: int, x: Mix): int = fmul(ONE - x.eta, gaussCdf(d, x.s)) + fmul(x.eta, cauchyCdf(d, x.g))

  // kinds: 0 box, 1 Breit-Wigner, 2 normal, 3 pseudo-Voigt, 4 Voigt
  pure def pdf(kind: int, d: int, er: int, width: int, amu: int, t: int): int =
    if (kind == 0) boxPdf(d)
    else if (kind == 1) cauchyPdf(d, width / 2)
    else {
      val s = sigma(er, amu, t)
      if (kind == 2) gaussPdf(d, s)
      else if (kind == 3) mixPdf(d, mixture(s, width))
      else voigtPdf(d, s, width / 2)
    }

  /// cumulative distribution at each of several distances (pseudo-Voigt for Voigt profiles)
  pure def cdfs(kind: int, ds: List[int], er: int, width: int, amu: int, t: int): List[int] =
    if (kind == 0) ds.foldl([], (a, d) => a.append(boxCdf(d)))
    else if (kind == 1) ds.foldl([], (a, d) => a.append(cauchyCdf(d, width / 2)))
    else {
      val s = sigma(er, amu, t)
      if (kind == 2) ds.foldl([], (a, d) => a.append(gaussCdf(d, s)))
      else {
        val x = mixture(s, width)
        ds.foldl([], (a, d) => a.append(mixCdf(d, x)))
      }
    }
  /// maximum of the density, bounds the effect of the rounding of an energy
  pure def peak(kind: int, er: int, width: int, amu: int, t: int): int =
    if (kind == 4) pdf(3, 0, er, width, amu, t) else pdf(kind, 0, er, width, amu, t)
}
