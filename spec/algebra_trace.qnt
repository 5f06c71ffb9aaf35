/// Trace specification of programs over cross sections (C01, C02, C03).
/// Replays the recorded operations on the model objects and judges every observation.
///
/// Events, field 0 is the kind:
///  0 RESET   nAtoms nEnergies
///  1 ATOM    id, value at each energy                      a constituent as the driver sees it
///  2 ADD     a b new same                                  same: number of the live object that was returned, -1 if none
///  3 ADDS    a c new same
///  4 MUL     a c new same
///  5 SUM     new same n id...                              sum([...])
///  6 EVAL    id, value at each energy
///  7 PEEK    id n (constituent, factor)*n, value at each energy
///  8 TAMPER  id                                            the driver overwrote the lists of this object
///  9 ARRAY   n before*n after*n                            array argument before and after a call
/// 10 PART    id n point*n                                  grid of a constituent (-1: constant)
/// 11 GRID    id n point*n                                  grid of an expression
/// 12 EGRID   lo hi n m point*m                             equidistant energy grid
/// 13 SAME    n x*n y*n                                     two grids that have to coincide
/// 14 EVALAT  id k value                                    single energy number k
/// 15 EMPTY   new same                                      combination without constituents
/// 16 CONST   c new                                         energy-independent cross section
/// 17 BUILD   new n (id, factor)*n                          combination built from explicit lists
module algebra_trace {
  import num.* from "./num"
  import algebra_core.* from "./algebra_core"

  type St = {
    na: int, ne: int,
    objs: int -> Obj,
    vals: int -> List[int],
    seen: int -> int,
    grids: int -> Set[int],
    dead: Set[int],
  }
  type Out = { st: St, err: str }

  pure val initSt: St = { na: 0, ne: 0, objs: Map(), vals: Map(), seen: Map(), grids: Map(), dead: Set() }

  pure def known(st: St, i: int): bool = st.objs.keys().contains(i)
  /// constituents are 0 .. na - 1; the form has na + 1 entries
  pure def atomVals(st: St, k: int): List[int] =
    range(0, st.na).foldl([], (a, i) => a.append(st.vals.get(i)[k]))
  pure def expected(st: St, id: int, k: int): int = valueV(st.objs.get(id).coef, atomVals(st, k), ONE)
  pure def bound(st: St, id: int, k: int): int =
    valueV(st.objs.get(id).mag, atomVals(st, k).foldl([], (a, v) => a.append(abs(v))), ONE) / 2^42 + 2^10

  pure def addNew(st: St, id: int, o: Obj): St =
    { ...st, objs: st.objs.put(id, o) }

  pure def valuesOk(st: St, ev: int, id: int, k0: int): bool =
    range(0, st.ne).foldl(true, (acc, k) =>
      acc and fin(ev, k0 + k) and abs(fld(ev, k0 + k) - expected(st, id, k)) <= bound(st, id, k))

  pure def ok(st: St): Out = { st: st, err: "" }
  pure def bad(st: St, e: str): Out = { st: st, err: e }
  pure def created(st: St, id: int, o: Obj, same: int): Out =
    { st: addNew(st, id, o), err: if (same == -1) "" else "operation did not return a new object" }

  pure def points(ev: int, k: int, n: int): Set[int] = flds(ev, k, n).foldl(Set(), (a, x) => a.union(Set(x)))
  pure def increasing(l: List[int]): bool =
    range(0, l.length()).foldl(true, (a, i) => a and (i == 0 or l[i - 1] < l[i]))

  pure def gridOf(st: St, id: int): Set[int] =
    st.objs.get(id).parts.fold(Set(), (a, p) => a.union(st.grids.get(p)))

  pure def accept(st: St, ev: int): Out = {
    val kind = ifl(ev, 0)
    if (kind == 0)
      ok({ ...initSt, na: ifl(ev, 1), ne: ifl(ev, 2) })
    else if (kind == 1) {
      val id = ifl(ev, 1)
      ok({ ...st, objs: st.objs.put(id, atomObj(st.na + 1, id, ONE)), vals: st.vals.put(id, flds(ev, 2, st.ne)) })
    }
    else if (kind == 2) {
      val a = ifl(ev, 1)
      val b = ifl(ev, 2)
      if (not(known(st, a) and known(st, b))) bad(st, "trace: unknown operand")
      else created(st, ifl(ev, 3), addO(st.objs.get(a), st.objs.get(b), Set(a, b)), ifl(ev, 4))
    }
    else if (kind == 3) {
      val a = ifl(ev, 1)
      if (not(known(st, a))) bad(st, "trace: unknown operand")
      else created(st, ifl(ev, 3), addS(st.objs.get(a), fld(ev, 2), Set(a)), ifl(ev, 4))
    }
    else if (kind == 4) {
      val a = ifl(ev, 1)
      if (not(known(st, a))) bad(st, "trace: unknown operand")
      else created(st, ifl(ev, 3), mulO(st.objs.get(a), fld(ev, 2), ONE, Set(a)), ifl(ev, 4))
    }
    else if (kind == 5) {
      val n = ifl(ev, 3)
      val ids = range(4, 4 + n).foldl([], (a, k) => a.append(ifl(ev, k)))
      if (not(range(0, n).foldl(true, (a, k) => a and known(st, ids[k])))) bad(st, "trace: unknown operand")
      else created(st, ifl(ev, 1),
        ids.foldl(addS(emptyObj(st.na + 1), 0, Set()), (acc, i) => addO(acc, st.objs.get(i), acc.from.union(Set(i)))),
        ifl(ev, 2))
    }
    else if (kind == 15)
      created(st, ifl(ev, 1), emptyObj(st.na + 1), ifl(ev, 2))
    else if (kind == 16)
      created(st, ifl(ev, 2), constObj(st.na + 1, fld(ev, 1)), -1)
    else if (kind == 17) {
      val n = ifl(ev, 2)
      created(st, ifl(ev, 1),
        range(0, n).foldl(emptyObj(st.na + 1), (acc, k) => {
          val i = ifl(ev, 3 + 2 * k)
          addO(acc, mulO(st.objs.get(i), fld(ev, 4 + 2 * k), ONE, Set()), acc.from.union(Set(i)))
        }), -1)
    }
    else if (kind == 6) {
      val id = ifl(ev, 1)
      if (not(known(st, id))) bad(st, "trace: unknown object")
      else if (nf(ev) != 2 + st.ne) bad(st, "wrong number of values")
      else if (not(valuesOk(st, ev, id, 2))) bad(st, "value is not the linear combination of the constituents")
      else ok(st)
    }
    else if (kind == 14) {
      val id = ifl(ev, 1)
      val k = ifl(ev, 2)
      if (not(known(st, id))) bad(st, "trace: unknown object")
      else if (not(fin(ev, 3) and abs(fld(ev, 3) - expected(st, id, k)) <= bound(st, id, k)))
        bad(st, "value at a single energy is not the linear combination of the constituents")
      else ok(st)
    }
    else if (kind == 7) {
      val id = ifl(ev, 1)
      // the event without its first two fields: everything that was observed of the object
      val obs = ev / 2^(16 + 2 * 96)
      if (not(known(st, id)) or st.dead.contains(id)) bad(st, "trace: unknown object")
      else if (not(st.seen.keys().contains(id))) ok({ ...st, seen: st.seen.put(id, obs) })
      else if (st.seen.get(id) != obs) bad(st, "an existing object changed")
      else ok(st)
    }
    else if (kind == 8) {
      val id = ifl(ev, 1)
      if (st.objs.keys().exists(k => not(st.dead.contains(k)) and st.objs.get(k).from.contains(id)))
        bad(st, "trace: tampered with an operand")
      else ok({ ...st, dead: st.dead.union(Set(id)) })
    }
    else if (kind == 9) {
      val n = ifl(ev, 1)
      if (range(0, n).foldl(true, (a, k) => a and raw(ev, 2 + k) == raw(ev, 2 + n + k))) ok(st)
      else bad(st, "an array passed by the caller was modified")
    }
    else if (kind == 10) {
      val n = ifl(ev, 2)
      ok({ ...st, grids: st.grids.put(ifl(ev, 1), points(ev, 3, n)) })
    }
    else if (kind == 11) {
      val id = ifl(ev, 1)
      val n = ifl(ev, 2)
      val g = flds(ev, 3, n)
      if (not(known(st, id))) bad(st, "trace: unknown object")
      else if (not(allFin(ev, 3, n))) bad(st, "combined grid contains a value that is not finite")
      else if (not(increasing(g))) bad(st, "combined grid is not strictly increasing")
      else if (points(ev, 3, n) != gridOf(st, id)) bad(st, "combined grid is not the union of the grids of the constituents")
      else ok(st)
    }
    else if (kind == 12) {
      val lo = fld(ev, 1)
      val hi = fld(ev, 2)
      val n = ifl(ev, 3)
      val m = ifl(ev, 4)
      val tol = maxi(abs(lo), abs(hi)) / 2^49
      if (n != m) bad(st, "energy grid has a wrong number of points")
      else if (not(allFin(ev, 5, m))) bad(st, "energy grid contains a value that is not finite")
      else if (fld(ev, 5) != lo) bad(st, "energy grid does not start at the first limit")
      else if (n > 1 and fld(ev, 4 + m) != hi) bad(st, "energy grid does not end at the second limit")
      else if (not(range(0, n).foldl(true, (a, i) =>
          a and abs(fld(ev, 5 + i) - (if (n == 1) lo else lo + (hi - lo) * i / (n - 1))) <= tol)))
        bad(st, "energy grid is not equidistant")
      else ok(st)
    }
    else if (kind == 13) {
      val n = ifl(ev, 1)
      if (range(0, n).foldl(true, (a, k) => a and abs(fld(ev, 2 + k) - fld(ev, 2 + n + k)) <= abs(fld(ev, 2 + k)) / 2^49)) ok(st)
      else bad(st, "probability grid differs from the equidistant energy grid")
    }
    else bad(st, "trace: unknown event")
  }
}
