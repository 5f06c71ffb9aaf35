/// Arrays with up to two axes that are not empty, selections and broadcasting (C18). The elements are numbered, row by row.
module arrays {
  type Arr = { shape: List[int], items: List[int] }

  pure def upto(n: int): List[int] = if (n <= 0) [] else range(0, n)
  pure def prod(l: List[int]): int = l.foldl(1, (a, b) => a * b)
  pure def vector(n: int): Arr = { shape: [n], items: upto(n) }

  /// number of elements that belong to one index of the first axis
  pure def width(a: Arr): int = if (a.shape.length() == 2) a.shape[1] else 1
  pure def pickRows(a: Arr, rows: List[int]): Arr = {
    val w = width(a)
    val items = rows.foldl([], (l, r) => upto(w).foldl(l, (m, c) => m.append(a.items[r * w + c])))
    { shape: if (a.shape.length() == 2) [rows.length(), w] else [rows.length()], items: items }
  }

  pure val REVERSE: int = 0
  pure val STRIDE: int = 1
  pure val TWICE: int = 2
  pure val COLUMN: int = 3
  pure val ROW: int = 4
  pure val TRANSPOSE: int = 5
  pure val FOLD: int = 6
  pure val HEAD: int = 7
  pure val REPEAT: int = 8
  pure val FIRST: int = 9

  pure def possible(a: Arr, op: int): bool = {
    val rank = a.shape.length()
    if (rank == 0) false
    else if (op == COLUMN or op == ROW or op == REPEAT) rank == 1
    else if (op == TRANSPOSE) rank == 2
    else if (op == FOLD) rank == 2 or a.shape[0] % 2 == 0
    else true
  }

  pure def apply(a: Arr, op: int): Arr = {
    val rank = a.shape.length()
    if (not(possible(a, op))) a
    else {
      val n = a.shape[0]
      if (op == REVERSE) pickRows(a, upto(n).foldl([], (l, i) => l.append(n - 1 - i)))
      else if (op == STRIDE) pickRows(a, upto((n + 1) / 2).foldl([], (l, i) => l.append(2 * i)))
      else if (op == TWICE) pickRows(a, upto(n).concat(upto(n)))
      else if (op == COLUMN) { shape: [n, 1], items: a.items }
      else if (op == ROW) { shape: [1, n], items: a.items }
      else if (op == TRANSPOSE) {
        val w = a.shape[1]
        { shape: [w, n], items: upto(w).foldl([], (l, c) => upto(n).foldl(l, (m, r) => m.append(a.items[r * w + c]))) }
      }
      else if (op == FOLD) { shape: if (rank == 1) [2, n / 2] else [n * a.shape[1]], items: a.items }
      else if (op == HEAD) pickRows(a, [0])
      else if (op == REPEAT) { shape: [2, n], items: a.items.concat(a.items) }
      else {
        val r = pickRows(a, [0])
        { shape: if (rank == 2) [a.shape[1]] else [], items: r.items }
      }
    }
  }

  /// size of an axis counted from the last one, 1 if there is none
  pure def axis(s: List[int], k: int): int = if (k < s.length()) s[s.length() - 1 - k] else 1
  pure def fits(s: List[int], t: List[int]): bool =
    Set(0, 1).forall(k => axis(s, k) == axis(t, k) or axis(s, k) == 1 or axis(t, k) == 1)
  pure def common(a: int, b: int): int = if (a == 1) b else a
  pure def joint(s: List[int], t: List[int]): List[int] = {
    val rank = if (s.length() < t.length()) t.length() else s.length()
    if (rank == 0) []
    else if (rank == 1) [common(axis(s, 0), axis(t, 0))]
    else [common(axis(s, 1), axis(t, 1)), common(axis(s, 0), axis(t, 0))]
  }
  /// position of the element that stands at (row, column) of the joint array
  pure def source(s: List[int], row: int, col: int): int =
    (if (axis(s, 1) == 1) 0 else row) * axis(s, 0) + (if (axis(s, 0) == 1) 0 else col)
  /// elements of an array that is stretched to a joint shape
  pure def stretch(a: Arr, shape: List[int]): Arr = {
    val rows = axis(shape, 1)
    val cols = axis(shape, 0)
    { shape: shape, items: upto(rows).foldl([], (l, r) => upto(cols).foldl(l, (m, c) => m.append(a.items[source(a.shape, r, c)]))) }
  }
}
