/// Small-scope state machine of array arguments (C18): two arrays are rearranged independently and then combined by
/// broadcasting. A function that acts on the elements commutes with each rearrangement.
module arrays_mc {
  import arrays.* from "./arrays"
  const SIZES: Set[int]
  const DEPTH: int
  const LIMIT: int

  /// operations, initial sizes and arrays of both arguments
  var ops: List[{ arg: int, op: int }]
  var start: List[int]
  var x: Arr
  var y: Arr
  /// the rearranged array of function values
  var fx: Arr

  pure def value(i: int): int = 7 * i * i - 3
  pure def image(a: Arr): Arr = { shape: a.shape, items: a.items.foldl([], (l, i) => l.append(value(i))) }

  action init = {
    nondet n = SIZES.oneOf()
    nondet m = SIZES.oneOf()
    all { ops' = [], start' = [n, m], x' = vector(n), y' = vector(m), fx' = image(vector(n)) }
  }
  action step = all {
    ops.length() < DEPTH,
    nondet op = 0.to(9).oneOf()
    nondet arg = 0.to(1).oneOf()
    val a = if (arg == 0) x else y
    val r = apply(a, op)
    all {
      possible(a, op),
      // the order between the arguments does not matter
      if (ops.length() == 0) true else ops[ops.length() - 1].arg <= arg,
      r.items.length() <= LIMIT,
      ops' = ops.append({ arg: arg, op: op }),
      start' = start,
      x' = if (arg == 0) r else x,
      y' = if (arg == 0) y else r,
      fx' = if (arg == 0) apply(fx, op) else fx,
    }
  }

  val inv = and {
    prod(x.shape) == x.items.length(),
    prod(y.shape) == y.items.length(),
    x.items.length() > 0,
    y.items.length() > 0,
    fx == image(x),
    fits(x.shape, y.shape) == fits(y.shape, x.shape),
    fits(x.shape, y.shape) implies and {
      joint(x.shape, y.shape) == joint(y.shape, x.shape),
      prod(joint(x.shape, y.shape)) == stretch(x, joint(x.shape, y.shape)).items.length(),
      stretch(image(x), joint(x.shape, y.shape)) == image(stretch(x, joint(x.shape, y.shape))),
      (x.shape == y.shape) implies stretch(x, joint(x.shape, y.shape)) == x,
    },
  }
}
module arrays_mcq { import arrays_mc(SIZES = Set(1, 3, 4), DEPTH = 3, LIMIT = 12).* }
module arrays_mct { import arrays_mc(SIZES = Set(1, 2, 3, 4), DEPTH = 4, LIMIT = 16).* }
