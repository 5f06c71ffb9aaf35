/// Trace specification of attenuation data (C11): a table is written as lines of text or as rows of numbers, then used.
module xrmac_trace {
  import num.* from "./num"
  import text.* from "./text"

  type Conv = { power: int, factor: int }
  type Row = { e: int, m: int, a: int }
  /// layout: -1 no line yet, 0 without label column, 1 with label column
  type St = { layout: int, rows: List[Row], ec: Conv, mc: Conv }
  pure val ID: Conv = { power: 1, factor: ONE }
  pure val initSt: St = { layout: -1, rows: [], ec: ID, mc: ID }

  pure def apply(c: Conv, x: int): int = fmul(c.factor, if (c.power == 2) sq(x) else x)

  /// columns of a line in the two layouts
  pure def rowOf(t: int, layout: int): List[int] = {
    val s = drop(t, if (layout == 1) 3 else 0)
    [take(s, 11), take(drop(s, 13), 9), take(drop(s, 24), 9)]
  }

  pure def same(a: int, b: int): bool = abs(a - b) <= abs(b) / 10^12 + ONE / 10^60

  /// ln of a value together with its tolerance
  type Value = { l: int, tol: int }
  pure def TOL: int = ONE / 10^9
  /// slope of the interval that begins with row i, 0 if there is none
  pure def slope(rows: List[Row], i: int): int =
    if (i < 0 or i + 1 >= rows.length()) 0
    else if (rows[i].e >= rows[i + 1].e) 0
    else fdiv(fln(rows[i + 1].m) - fln(rows[i].m), fln(rows[i + 1].e) - fln(rows[i].e))

  /// Permitted values at the energy x: one value, or the two values at an absorption edge. The tolerance contains the
  /// rounding of a logarithm times the slope, which is large between energies that are close to each other.
  pure def permitted(rows: List[Row], x: int): List[Value] = {
    val n = rows.length()
    val lx = fln(x)
    val rounding = (abs(lx) + ONE) / 2^49
    val near = range(0, n).foldl([], (a, i) =>
      if (abs(rows[i].e - x) <= x / 10^12)
        a.append({ l: fln(rows[i].m), tol: TOL + fmul(maxi(abs(slope(rows, i - 1)), abs(slope(rows, i))), rounding + ONE / 10^12) })
      else a)
    if (near.length() > 0) near
    else if (x < rows[0].e) [{ l: fln(rows[0].m), tol: TOL }]
    else if (x > rows[n - 1].e) [{ l: fln(rows[n - 1].m), tol: TOL }]
    else range(0, n - 1).foldl([], (a, i) =>
      if (rows[i].e < x and x < rows[i + 1].e) {
        val s = slope(rows, i)
        a.append({ l: fln(rows[i].m) + fmul(s, lx - fln(rows[i].e)), tol: TOL + fmul(abs(s), rounding) })
      } else a)
  }

  /// table with one more row; rows are stored after the conversion
  pure def add(st: St, e: int, m: int, a: int): St =
    { ...st, rows: st.rows.append({ e: apply(st.ec, e), m: apply(st.mc, m), a: apply(st.mc, a) }) }

  pure def accept(st: St, ev: int): { st: St, err: str } = {
    val k = ifl(ev, 0)
    // 0 powerE factorE powerM factorM: a new table with these conversions
    if (k == 0) {
      { st: { layout: -1, rows: [], ec: { power: ifl(ev, 1), factor: fld(ev, 2) }, mc: { power: ifl(ev, 3), factor: fld(ev, 4) } }, err: "" }
    }
    // 1 text: a line of the file
    else if (k == 1) {
      val t = lineOf(ev, 1)
      val layout = if (st.layout >= 0) st.layout else if (isDigit(t % 256)) 0 else 1
      val c = rowOf(t, layout)
      if (c.foldl(true, (a, x) => a and isNumber(x)))
        { st: { ...add(st, number(c[0]), number(c[1]), number(c[2])), layout: layout }, err: "" }
      else { st: st, err: "trace: line is not in a documented layout" }
    }
    // 2 E coefficient [third column]: a row of an array
    else if (k == 2) {
      { st: add(st, fld(ev, 1), fld(ev, 2), if (nf(ev) > 3) fld(ev, 3) else 0), err: "" }
    }
    // 3 n columns value*(n columns): content of the table after conversion, row by row
    else if (k == 3) {
      val n = ifl(ev, 1)
      val w = ifl(ev, 2)
      val t = st.rows
      val err =
        if (n != t.length()) "number of table entries is wrong"
        else if (w < 2 or not(allFin(ev, 3, n * w))) "table contains a value that is not a number"
        else if (not(range(0, n).foldl(true, (a, i) => a and same(fld(ev, 3 + i * w), t[i].e)))) "energies of the table are wrong"
        else if (not(range(0, n).foldl(true, (a, i) => a and same(fld(ev, 4 + i * w), t[i].m)))) "coefficients of the table are wrong"
        else if (w > 2 and not(range(0, n).foldl(true, (a, i) => a and same(fld(ev, 5 + i * w), t[i].a)))) "third column of the table is wrong"
        else ""
      { st: st, err: err }
    }
    // 4 E | value
    else if (k == 4) {
      val err =
        if (not(fin(ev, 2)) or fld(ev, 2) <= 0) "attenuation coefficient is not a positive number"
        else {
          val l = fln(fld(ev, 2))
          if (permitted(st.rows, fld(ev, 1)).foldl(false, (a, w) => a or abs(l - w.l) <= w.tol)) ""
          else "attenuation coefficient is not the log-log interpolation of the table"
        }
      { st: st, err: err }
    }
    // 5 n a*n b*n: array and single evaluations
    else if (k == 5) {
      val n = ifl(ev, 1)
      val err =
        if (nf(ev) != 2 + 2 * n) "array result has a wrong size"
        else if (range(0, n).foldl(true, (a, i) => a and fin(ev, 2 + i) and fin(ev, 2 + n + i) and close(fld(ev, 2 + i), fld(ev, 2 + n + i), 10^12, 0))) ""
        else "array and single evaluation differ"
      { st: st, err: err }
    }
    else { st: st, err: "trace: unknown event" }
  }
}
