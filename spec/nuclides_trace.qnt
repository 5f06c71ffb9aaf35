/// Trace specification of nuclear data and recoil (C17).
module nuclides_trace {
  import num.* from "./num"
  import shapes.* from "./shapes"

  /// 1 dE amu | Er: absorption by a free nucleus at rest conserves energy and momentum, (M + Er)^2 - Er^2 = (M + dE)^2
  pure def judgeRecoil(ev: int): str = {
    val de = fld(ev, 1)
    val m = fmul(fld(ev, 2), AMU)
    val er = fld(ev, 3)
    // without the common term M^2, divided by 2 M
    val before = er
    val after = de + fdiv(sq(de), 2 * m)
    if (not(fin(ev, 3))) "recoil-corrected energy is not a number"
    else if (abs(before - after) > abs(after) / 2^50 + ONE / 2^200) "recoil-corrected energy violates the conservation of momentum"
    else if (de > 0 and er < de) "recoil lowers the resonance energy"
    else ""
  }
  /// 2 dE | Er: no recoil
  pure def judgeNone(ev: int): str =
    if (not(fin(ev, 2))) "energy is not a number"
    else if (fld(ev, 1) == fld(ev, 2)) "" else "energy without recoil is not the energy difference"
  /// 3 n given*n seen*n: data that were given
  pure def judgeKept(ev: int): str = {
    val n = ifl(ev, 1)
    if (nf(ev) != 2 + 2 * n) "number of data is wrong"
    else if (range(0, n).foldl(true, (a, i) =>
      a and tag(ev, 2 + i) == tag(ev, 2 + n + i) and (not(fin(ev, 2 + i)) or fld(ev, 2 + i) == fld(ev, 2 + n + i)))) ""
    else "nuclear data are not those that were given"
  }
  /// 4 n width*n | total width
  pure def judgeWidth(ev: int): str = {
    val n = ifl(ev, 1)
    if (not(fin(ev, 2 + n))) "total width is not a number"
    else if (abs(fld(ev, 2 + n) - suml(flds(ev, 2, n))) > suml(flds(ev, 2, n)) / 10^12) "total width is not the sum of the partial widths"
    else ""
  }
  /// 5 n (mass abundance)*n | mass
  pure def judgeMass(ev: int): str = {
    val n = ifl(ev, 1)
    val want = range(0, n).foldl(0, (acc, i) => acc + fmul(fld(ev, 2 + 2 * i), fld(ev, 3 + 2 * i)))
    if (not(fin(ev, 2 + 2 * n))) "mass of an element is not a number"
    else if (abs(fld(ev, 2 + 2 * n) - want) > abs(want) / 10^13) "mass of an element is not the weighted sum"
    else ""
  }

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    if (k == 1) judgeRecoil(ev)
    else if (k == 2) judgeNone(ev)
    else if (k == 3) judgeKept(ev)
    else if (k == 4) judgeWidth(ev)
    else if (k == 5) judgeMass(ev)
    else "trace: unknown event"
  }
}
