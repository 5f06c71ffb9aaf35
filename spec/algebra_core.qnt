/// Algebra of cross sections: an expression denotes a linear form over its constituents.
/// coef[k] is the weight of atom k; the last entry is the weight of the energy-independent part.
/// mag is the same without cancellation, it bounds rounding errors of an implementation.
/// parts is the set of constituents that must contribute to grids (the constant part is number -1).
module algebra_core {
  type Obj = { coef: List[int], mag: List[int], parts: Set[int], from: Set[int] }

  pure def absI(a: int): int = if (a < 0) -a else a
  pure def addV(x: List[int], y: List[int]): List[int] =
    range(0, x.length()).foldl([], (a, i) => a.append(x[i] + y[i]))
  pure def mulV(k: int, x: List[int], unit: int): List[int] =
    range(0, x.length()).foldl([], (a, i) => a.append(k * x[i] / unit))
  pure def zeroV(n: int): List[int] = range(0, n).foldl([], (a, i) => a.append(0))
  pure def unitV(n: int, k: int, unit: int): List[int] =
    range(0, n).foldl([], (a, i) => a.append(if (i == k) unit else 0))

  /// constituent number k of n - 1
  pure def atomObj(n: int, k: int, unit: int): Obj =
    { coef: unitV(n, k, unit), mag: unitV(n, k, unit), parts: Set(k), from: Set() }
  /// energy-independent cross section
  pure def constObj(n: int, c: int): Obj =
    { coef: unitV(n, n - 1, c), mag: unitV(n, n - 1, absI(c)), parts: Set(-1), from: Set() }
  pure def emptyObj(n: int): Obj = { coef: zeroV(n), mag: zeroV(n), parts: Set(), from: Set() }

  pure def addO(x: Obj, y: Obj, ops: Set[int]): Obj =
    { coef: addV(x.coef, y.coef), mag: addV(x.mag, y.mag), parts: x.parts.union(y.parts), from: ops }
  pure def addS(x: Obj, c: int, ops: Set[int]): Obj = addO(x, constObj(x.coef.length(), c), ops)
  pure def mulO(x: Obj, c: int, unit: int, ops: Set[int]): Obj =
    { coef: mulV(c, x.coef, unit), mag: mulV(absI(c), x.mag, unit), parts: x.parts, from: ops }

  /// value of a form for given values of the atoms
  pure def valueV(x: List[int], vals: List[int], unit: int): int =
    range(0, x.length()).foldl(0, (a, i) => a + x[i] * (if (i < vals.length()) vals[i] else unit)) / unit
}
