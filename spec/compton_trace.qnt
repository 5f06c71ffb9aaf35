/// Trace specification of Compton scattering (C10).
/// Field 0 is the kind of the event, field 1 the number of scattering centres, field 2 the rest energy of the charged
/// particle (nothing: the default, an electron), field 3 the energy of the photon.
module compton_trace {
  import num.* from "./num"

  pure val ELECTRON: int = dec(51099895069, 11)
  pure val ALPHA: int = dec(72973525643, 13)
  pure val HBARC: int = dec(1973269804593, 10)

  pure def mass(ev: int): int = if (fin(ev, 2)) fld(ev, 2) else ELECTRON
  /// classical radius squared, times the number of scattering centres
  pure def scale(ev: int): int = fmul(fld(ev, 1), sq(fdiv(fmul(ALPHA, HBARC), mass(ev))))
  /// ratio of final and initial energy, for u = 1 - cos(theta)
  pure def ratio(x: int, u: int): int = fdiv(ONE, ONE + fmul(x, u))
  /// 1 - cos(theta) for a scattered energy
  pure def uOf(m: int, e: int, ep: int): int = fdiv(m, ep) - fdiv(m, e)
  /// solid-angle differential cross section; p: twice the squared cosine of the azimuthal angle, or 1
  pure def dOmega(s: int, x: int, u: int, p: int): int = {
    val k = ratio(x, u)
    val sin2 = fmul(u, 2 * ONE - u)
    fmul(fmul(s, sq(k)), k + fdiv(ONE, k) - fmul(sin2, p)) / 2
  }
  pure def total(s: int, x: int): int = {
    val y = ONE + 2 * x
    val a = fdiv(2 * fmul(x, 2 * ONE + fmul(fmul(x, ONE + x), 8 * ONE + x)), sq(y))
    val b = fmul(fmul(x - 2 * ONE, x) - 2 * ONE, fln(y))
    fdiv(fmul(fmul(PI, s), a + b), fmul(sq(x), x))
  }

  /// Simpson's rule for values f_0 .. f_n (n even) at equally spaced points
  pure def simpson(fs: List[int], h: int): int = {
    val n = fs.length() - 1
    fmul(h, range(0, n + 1).foldl(0, (a, i) => a + (if (i == 0 or i == n) 1 else if (i % 2 == 1) 4 else 2) * fs[i])) / 3
  }

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    val m = mass(ev)
    val e = fld(ev, 3)
    val x = fdiv(e, m)
    // the default mass and the constants depend on the edition of the tables
    val loose = 10^6
    val tight = if (fin(ev, 2)) 10^11 else 10^8
    val s = scale(ev)
    // 1 theta | ratio
    if (k == 1) {
      val want = ratio(x, ONE - fcos(fld(ev, 4)))
      if (not(fin(ev, 5))) "scattered energy is not a number"
      else if (not(close(fld(ev, 5), want, tight, fmul(want, x) / 2^48))) "scattered energy does not obey the Compton relation"
      else ""
    }
    // 2 | edge
    else if (k == 2) {
      if (not(fin(ev, 4))) "minimum scattered energy is not a number"
      else if (not(close(fld(ev, 4), fmul(e, ratio(x, 2 * ONE)), tight, 0))) "minimum scattered energy is wrong"
      else ""
    }
    // 3 Ep | theta
    else if (k == 3) {
      val ep = fld(ev, 4)
      val u = mini(2 * ONE, uOf(m, e, ep))
      val th = fld(ev, 5)
      if (not(fin(ev, 5))) "scattering angle is not a number"
      else if (th < 0 or th > PI + ONE / 10^12) "scattering angle is out of range"
      else if (abs(ONE - fcos(th) - u) > ONE / 10^12 + fdiv(m, ep) / 2^46 + (if (fin(ev, 2)) 0 else fdiv(m, ep) / 10^7)) "scattering angle does not obey the Compton relation"
      else ""
    }
    // 4 theta phi | polarized
    else if (k == 4) {
      val p = 2 * sq(fcos(fld(ev, 5)))
      val want = dOmega(s, x, ONE - fcos(fld(ev, 4)), p)
      if (not(fin(ev, 6))) "polarized cross section is not a number"
      else if (not(close(fld(ev, 6), want, loose, fmul(s, x + ONE) / 10^13))) "polarized cross section is not the Klein-Nishina formula"
      else ""
    }
    // 5 theta | unpolarized
    else if (k == 5) {
      if (not(fin(ev, 5))) "unpolarized cross section is not a number"
      else if (not(close(fld(ev, 5), dOmega(s, x, ONE - fcos(fld(ev, 4)), ONE), loose, 0))) "unpolarized cross section is not the Klein-Nishina formula"
      else ""
    }
    // 6 Ep phi | energy-differential polarized
    else if (k == 6) {
      val ep = fld(ev, 4)
      val jac = fdiv(m, sq(ep))
      val want = fmul(dOmega(s, x, mini(2 * ONE, uOf(m, e, ep)), 2 * sq(fcos(fld(ev, 5)))), jac)
      if (not(fin(ev, 6))) "energy-differential polarized cross section is not a number"
      else if (not(close(fld(ev, 6), want, loose, fmul(fmul(s, x + ONE), jac) / 10^13 + fmul(fmul(s, jac), fdiv(m, ep)) / 2^40))) "energy-differential polarized cross section is not the Klein-Nishina formula"
      else ""
    }
    // 7 Ep | energy-differential
    else if (k == 7) {
      val ep = fld(ev, 4)
      val jac = 2 * fmul(PI, fdiv(m, sq(ep)))
      val want = fmul(dOmega(s, x, mini(2 * ONE, uOf(m, e, ep)), ONE), jac)
      if (not(fin(ev, 5))) "energy-differential cross section is not a number"
      else if (not(close(fld(ev, 5), want, loose, fmul(fmul(s, jac), fdiv(m, ep)) / 2^40))) "energy-differential cross section is not the Klein-Nishina formula"
      else ""
    }
    // 8 theta | angle-differential
    else if (k == 8) {
      val th = fld(ev, 4)
      val want = 2 * fmul(fmul(PI, fsin(th)), dOmega(s, x, ONE - fcos(th), ONE))
      if (not(fin(ev, 5))) "angle-differential cross section is not a number"
      else if (not(close(fld(ev, 5), want, loose, s / 10^14))) "angle-differential cross section is not the Klein-Nishina formula"
      else ""
    }
    // 9 | total
    else if (k == 9) {
      val want = total(s, x)
      if (not(fin(ev, 4))) "total cross section is not a number"
      else if (not(close(fld(ev, 4), want, loose, 0))) "total cross section is not the Klein-Nishina formula"
      else ""
    }
    // 10 n a*n b*n: array and single evaluations (fields 1 - 3 unused)
    else if (k == 10) {
      val n = ifl(ev, 4)
      if (nf(ev) != 5 + 2 * n) "array result has a wrong size"
      else if (range(0, n).foldl(true, (a, i) => a and fin(ev, 5 + i) and fin(ev, 5 + n + i) and close(fld(ev, 5 + i), fld(ev, 5 + n + i), 10^10, 0))) ""
      else "array and single evaluation differ"
    }
    // 11 Ep | energy after a scattering by the angle that belongs to Ep
    else if (k == 11) {
      if (not(fin(ev, 5))) "scattered energy is not a number"
      else if (not(close(fld(ev, 5), fld(ev, 4), 10^9, fmul(fld(ev, 4), x + fdiv(m, e)) / 2^46))) "scattered energy and scattering angle are not consistent"
      else ""
    }
    // 12 n polarized*n | unpolarized: equally spaced azimuthal angles
    else if (k == 12) {
      val n = ifl(ev, 4)
      if (not(allFin(ev, 5, n + 1))) "polarized cross section is not a number"
      else if (not(close(suml(flds(ev, 5, n)) / n, fld(ev, 5 + n), 10^10, 0))) "average over the azimuthal angle is not the unpolarized cross section"
      else ""
    }
    // 13 n value*(n+1) | total: energy-differential values at E exp(-i L / n), L = ln(1 + 2 x)
    else if (k == 13) {
      val n = ifl(ev, 4)
      val l = fln(ONE + 2 * x)
      val fs = range(0, n + 1).foldl([], (a, i) => a.append(fmul(fld(ev, 5 + i), fmul(e, fexp(-(i * l / n))))))
      if (not(allFin(ev, 5, n + 2))) "energy-differential cross section is not a number"
      else if (not(close(simpson(fs, l / n), fld(ev, 6 + n), 10^4, 0))) "energy-differential cross section does not integrate to the total one"
      else ""
    }
    // 14 n value*(n+1) | total: angle-differential values at i pi / n
    else if (k == 14) {
      val n = ifl(ev, 4)
      if (not(allFin(ev, 5, n + 2))) "angle-differential cross section is not a number"
      else if (not(close(simpson(flds(ev, 5, n + 1), PI / n), fld(ev, 6 + n), 10^4, 0))) "angle-differential cross section does not integrate to the total one"
      else ""
    }
    else "trace: unknown event"
  }
}
