/// Trace specification of element data (C12): lines of the two kinds of tables are read, then the data are queried.
module elements_trace {
  import num.* from "./num"
  import text.* from "./text"

  /// "Atomic Number = "
  pure val P_Z: int = 0x203d207265626d754e2063696d6f7441
  pure val N_Z: int = 16
  /// "Atomic Symbol = "
  pure val P_X: int = 0x203d206c6f626d79532063696d6f7441
  pure val N_X: int = 16
  /// "Mass Number = "
  pure val P_A: int = 0x203d207265626d754e207373614d
  pure val N_A: int = 14
  /// "Relative Atomic Mass = "
  pure val P_M: int = 0x203d207373614d2063696d6f74412065766974616c6552
  pure val N_M: int = 23
  /// "Isotopic Composition = "
  pure val P_C: int = 0x203d206e6f697469736f706d6f43206369706f746f7349
  pure val N_C: int = 23

  type Iso = { z: int, a: int, sym: int, mass: int, ab: int }
  type Dens = { sym: int, value: int }
  /// cur: paragraph that is being read
  type St = { cur: Iso, isos: List[Iso], syms: int -> int, dens: List[Dens], factor: int }
  pure val NOISO: Iso = { z: 0, a: 0, sym: 0, mass: 0, ab: 0 }
  pure val initSt: St = { cur: NOISO, isos: [], syms: Map(), dens: [], factor: ONE }

  /// value in front of an uncertainty
  pure def plain(t: int): int = take(t, find(t, 40))

  pure def nistLine(st: St, t: int): { st: St, err: str } =
    if (startsWith(t, P_Z, N_Z)) { st: { ...st, cur: { ...NOISO, z: integer(drop(t, N_Z)) } }, err: "" }
    else if (startsWith(t, P_X, N_X)) {
      val s = drop(t, N_X)
      val syms = if (st.syms.keys().contains(st.cur.z)) st.syms else st.syms.put(st.cur.z, s)
      { st: { ...st, cur: { ...st.cur, sym: s }, syms: syms }, err: "" }
    }
    else if (startsWith(t, P_A, N_A)) { st: { ...st, cur: { ...st.cur, a: integer(drop(t, N_A)) } }, err: "" }
    else if (startsWith(t, P_M, N_M)) {
      val v = plain(drop(t, N_M))
      if (isNumber(v)) { st: { ...st, cur: { ...st.cur, mass: number(v) } }, err: "" }
      else { st: st, err: "trace: mass is not a number" }
    }
    else if (startsWith(t, P_C, N_C)) {
      val v = plain(drop(t, N_C))
      if (v == 0) { st: { ...st, isos: st.isos.append({ ...st.cur, ab: 0 }) }, err: "" }
      else if (isNumber(v)) { st: { ...st, isos: st.isos.append({ ...st.cur, ab: number(v) }) }, err: "" }
      else { st: st, err: "trace: abundance is not a number" }
    }
    else { st: st, err: "" }

  pure def densityLine(st: St, t: int): St = {
    val v = strip(drop(t, 2))
    if (isNumber(v)) { ...st, dens: st.dens.append({ sym: strip(take(t, 2)), value: number(v) }) } else st
  }

  pure def isosOf(st: St, z: int): List[Iso] = st.isos.foldl([], (acc, i) => if (i.z == z) acc.append(i) else acc)
  pure def same(a: int, b: int): bool = abs(a - b) <= abs(b) / 10^14
  pure def massOf(is: List[Iso]): int = is.foldl(0, (acc, i) => acc + fmul(i.mass, i.ab))

  pure def accept(st: St, ev: int): { st: St, err: str } = {
    val k = ifl(ev, 0)
    // 0 factor: new tables; densities are multiplied by this factor
    if (k == 0) { st: { ...initSt, factor: fld(ev, 1) }, err: "" }
    // 1 text, 2 text: a line of the element table, a line of the density table
    else if (k == 1) nistLine(st, lineOf(ev, 1))
    else if (k == 2) { st: densityLine(st, lineOf(ev, 1)), err: "" }
    // 3 Z | symbol or nothing
    else if (k == 3) {
      val z = ifl(ev, 1)
      val err =
        if (not(st.syms.keys().contains(z))) { if (tag(ev, 2) == NONE) "" else "symbol for an unknown element" }
        else if (not(fin(ev, 2)) or ifl(ev, 2) != st.syms.get(z)) "symbol of an element is wrong"
        else ""
      { st: st, err: err }
    }
    // 4 Z n (A symbol mass abundance consistent)*n
    else if (k == 4) {
      val n = ifl(ev, 2)
      val want = isosOf(st, ifl(ev, 1))
      val ok = range(0, n).foldl(true, (acc, i) => {
        val o = 3 + 5 * i
        acc and allFin(ev, o, 5) and ifl(ev, o + 4) == 1
      })
      val found = want.foldl("", (acc, w) => {
        val hits = range(0, n).foldl([], (l, i) => if (ifl(ev, 3 + 5 * i) == w.a and ifl(ev, 4 + 5 * i) == w.sym) l.append(i) else l)
        if (acc != "") acc
        else if (hits.length() != 1) "an isotope is missing"
        else if (not(same(fld(ev, 5 + 5 * hits[0]), w.mass))) "mass of an isotope is wrong"
        else if (not(same(fld(ev, 6 + 5 * hits[0]), w.ab))) "abundance of an isotope is wrong"
        else ""
      })
      val err =
        if (not(ok)) "isotope data are inconsistent or not numbers"
        else if (n != want.length()) "number of isotopes is wrong"
        else found
      { st: st, err: err }
    }
    // 5 Z | mass of the element
    else if (k == 5) {
      val want = massOf(isosOf(st, ifl(ev, 1)))
      val err =
        if (not(fin(ev, 2))) "mass of an element is not a number"
        else if (abs(fld(ev, 2) - want) > want / 10^13) "mass of an element is not the weighted sum"
        else ""
      { st: st, err: err }
    }
    // 6 symbol | density or nothing
    else if (k == 6) {
      val hits = st.dens.foldl([], (acc, d) => if (d.sym == ifl(ev, 1)) acc.append(fmul(st.factor, d.value)) else acc)
      val err =
        if (hits.length() == 0) { if (tag(ev, 2) == NONE) "" else "density for an element that is not in the table" }
        else if (not(fin(ev, 2))) "density of an element is missing"
        else if (not(close(fld(ev, 2), hits[0], 10^14, 0))) "density of an element is wrong"
        else ""
      { st: st, err: err }
    }
    // 7 n Z*n: all elements that are known
    else if (k == 7) {
      val known = range(2, 2 + ifl(ev, 1)).foldl(Set(), (acc, i) => acc.union(Set(ifl(ev, i))))
      { st: st, err: if (known == st.syms.keys()) "" else "set of elements is wrong" }
    }
    // 8 n (mass abundance)*n | mass of a user-defined element
    else if (k == 8) {
      val n = ifl(ev, 1)
      val want = range(0, n).foldl(0, (acc, i) => acc + fmul(fld(ev, 2 + 2 * i), fld(ev, 3 + 2 * i)))
      val err =
        if (not(fin(ev, 2 + 2 * n))) "mass of an element is not a number"
        else if (abs(fld(ev, 2 + 2 * n) - want) > abs(want) / 10^13) "mass of an element is not the weighted sum"
        else ""
      { st: st, err: err }
    }
    else { st: st, err: "trace: unknown event" }
  }
}
