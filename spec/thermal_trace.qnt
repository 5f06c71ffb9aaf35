/// Trace specification of the thermal model (C09).
module thermal_trace {
  import num.* from "./num"
  import shapes.* from "./shapes"

  /// Debye temperatures at room temperature in mK by proton number, -1: no value
  pure val DEBYE: int -> int = Map(
    1 -> -1, 3 -> 448000, 4 -> 1031000, 5 -> 1362000, 6 -> 1550000, 10 -> -1, 11 -> 155000, 12 -> 330000,
    13 -> 390000, 14 -> 692000, 15 -> 576000, 16 -> 527000, 18 -> -1, 19 -> 100000, 20 -> 230000, 21 -> 476000,
    22 -> 380000, 23 -> 390000, 24 -> 424000, 25 -> 363000, 26 -> 373000, 27 -> 386000, 28 -> 345000, 29 -> 310000,
    30 -> 237000, 31 -> 240000, 32 -> 403000, 33 -> 275000, 34 -> -1, 36 -> -1, 37 -> 59000, 38 -> 148000,
    39 -> 214000, 40 -> 250000, 41 -> 260000, 42 -> 377000, 43 -> 422000, 44 -> 415000, 45 -> 350000, 46 -> 275000,
    47 -> 221000, 48 -> 221000, 49 -> 129000, 50 -> 254000, 51 -> 200000, 52 -> -1, 53 -> -1, 54 -> -1,
    55 -> 43000, 56 -> 116000, 57 -> 135000, 58 -> 138000, 59 -> 138000, 60 -> 148000, 62 -> 184000, 63 -> -1,
    64 -> 155000, 65 -> 158000, 66 -> 158000, 67 -> 161000, 68 -> 163000, 69 -> 167000, 70 -> -1, 71 -> 116000,
    72 -> 213000, 73 -> 225000, 74 -> 312000, 75 -> 275000, 76 -> 400000, 77 -> 228000, 78 -> 225000, 79 -> 178000,
    80 -> 92000, 81 -> 96000, 82 -> 87000, 83 -> 116000, 87 -> -1, 88 -> -1, 90 -> 100000, 91 -> 262000,
    92 -> 300000, 93 -> 163000, 94 -> 176000, 95 -> -1, 96 -> -1
  )

  pure def judge(ev: int): str = {
    val k = ifl(ev, 0)
    // 0 amu T E | width
    if (k == 0) {
      if (not(fin(ev, 4))) "Doppler width is not a number"
      else if (not(close(fld(ev, 4), dopplerWidth(fld(ev, 3), fld(ev, 1), fld(ev, 2)), 10^9, 0))) "Doppler width is wrong"
      else ""
    }
    // 1 width amu E | T
    else if (k == 1) {
      if (not(fin(ev, 4))) "effective temperature is not a number"
      else if (not(close(fld(ev, 4), temperature(fld(ev, 1), fld(ev, 2), fld(ev, 3)), 10^9, 0))) "effective temperature for a Doppler width is wrong"
      else ""
    }
    // 2 T TD | Teff
    else if (k == 2) {
      val t = fld(ev, 1)
      val td = fld(ev, 2)
      val r = fld(ev, 3)
      if (not(fin(ev, 3))) "Debye effective temperature is not a number"
      else if (r < t - t / 10^7 or r < 3 * td / 8 - td / 10^7) "Debye effective temperature is below its bounds"
      else if (not(close(r, debyeTeff(t, td), 3 * 10^7, 0))) "Debye effective temperature differs from the defining integral"
      else ""
    }
    // 3 Z value: table of Debye temperatures
    else if (k == 3) {
      val z = ifl(ev, 1)
      if (not(DEBYE.keys().contains(z))) "table of Debye temperatures has an entry that is not an element"
      else if (DEBYE.get(z) < 0) { if (tag(ev, 2) == NONE) "" else "tabulated Debye temperature is wrong" }
      else if (not(fin(ev, 2)) or abs(fld(ev, 2) - DEBYE.get(z) * ONE / 1000) > ONE / 10^6) "tabulated Debye temperature is wrong"
      else ""
    }
    // 4 n Z*n: elements found in the table
    else if (k == 4) {
      if (range(2, 2 + ifl(ev, 1)).foldl(Set(), (a, i) => a.union(Set(ifl(ev, i)))) == DEBYE.keys()) ""
      else "table of Debye temperatures misses an element"
    }
    // 5 n x*n y*n: array and single evaluations
    else if (k == 5) {
      val n = ifl(ev, 1)
      if (nf(ev) != 2 + 2 * n) "array result has a wrong size"
      else if (range(0, n).foldl(true, (a, i) => a and fin(ev, 2 + i) and fin(ev, 2 + n + i) and close(fld(ev, 2 + i), fld(ev, 2 + n + i), 10^12, 0))) ""
      else "array and single evaluation differ"
    }
    // 6 n Teff*n: increasing
    else if (k == 6) {
      if (range(0, ifl(ev, 1) - 1).foldl(true, (a, i) => a and fin(ev, 2 + i) and fin(ev, 3 + i) and fld(ev, 2 + i) < fld(ev, 3 + i))) ""
      else "Debye effective temperature does not increase"
    }
    else "trace: unknown event"
  }
}
