/// Trace specification of functions of arrays (C18).
module arrays_trace {
  import num.* from "./num"
  import arrays.* from "./arrays"

  /// array after the operations that are listed from field o: size, number of operations, operations
  pure def built(ev: int, o: int): { a: Arr, ok: bool } =
    upto(ifl(ev, o + 1)).foldl({ a: vector(ifl(ev, o)), ok: ifl(ev, o) > 0 }, (s, k) =>
      { a: apply(s.a, ifl(ev, o + 2 + k)), ok: s.ok and possible(s.a, ifl(ev, o + 2 + k)) })

  /// rank of the result and its shape from field o
  pure def shapeAt(ev: int, o: int): List[int] = upto(ifl(ev, o)).foldl([], (l, k) => l.append(ifl(ev, o + 1 + k)))

  /// an observed value (field j) is the value for the element alone (field i)
  pure def equalTo(ev: int, j: int, i: int): bool =
    if (not(fin(ev, i))) tag(ev, i) == tag(ev, j)
    else fin(ev, j) and abs(fld(ev, j) - fld(ev, i)) <= abs(fld(ev, i)) / 10^8

  /// 2 n m p value, values of m single calls: position p of an array in which m elements are repeated up to size n
  pure def judgeLong(ev: int): str =
    if (ifl(ev, 3) < 0 or ifl(ev, 3) >= ifl(ev, 1)) "trace: impossible position"
    else if (not(equalTo(ev, 4, 5 + ifl(ev, 3) % ifl(ev, 2)))) "an element of a long array differs from the result for this element alone"
    else ""

  /// 1, size ops of x, size ops of y, rank shape number values of the result, values of the single calls (x, y)
  /// The second argument is a single number for functions of one argument.
  pure def judgeOne(ev: int): str = {
    val x = built(ev, 1)
    val oy = 3 + ifl(ev, 2)
    val y = built(ev, oy)
    val os = oy + 2 + ifl(ev, oy + 1)
    val on = os + 1 + ifl(ev, os)
    val n = ifl(ev, on)
    val ot = on + 1 + n
    val m = ifl(ev, oy)
    if (not(x.ok) or not(y.ok)) "trace: impossible operation"
    else if (not(fits(x.a.shape, y.a.shape))) "trace: arguments do not fit together"
    else {
      val shape = joint(x.a.shape, y.a.shape)
      val xs = stretch(x.a, shape).items
      val ys = stretch(y.a, shape).items
      val bad = upto(xs.length()).select(k => not(equalTo(ev, on + 1 + k, ot + xs[k] * m + ys[k])))
      if (shapeAt(ev, os) != shape) "result does not have the joint shape of its arguments"
      else if (n != xs.length()) "result does not have one value for each element"
      else if (bad.length() > 0) "an element of the result differs from the result for this element alone"
      else ""
    }
  }

  pure def judge(ev: int): str = if (ifl(ev, 0) == 2) judgeLong(ev) else judgeOne(ev)
}
