/// Small-scope state machine of heating (C09): the temperature and the Debye temperature are raised step by step on a
/// lattice of powers of two. Eight times the bounds of the effective temperature are integers.
module thermal_mc {
  const STEPS: int

  /// exponents of two
  var t: int
  var td: int
  /// container of the arguments: 0 numbers, 1 array and number, 2 number and array, 3 two arrays, 4 two matrices
  var form: int
  /// action that led here: 0 none, 1 temperature raised, 2 Debye temperature raised
  var last: int
  /// eight times the lower bound and eight times the upper bound of the effective temperature before and after the step
  var before: { lo: int, hi: int }

  /// bounds: max(T, 3/8 TD) <= Teff <= T + 3/8 TD
  pure def bounds(a: int, b: int): { lo: int, hi: int } = {
    val x = 8 * 2^a
    val y = 3 * 2^b
    { lo: if (x < y) y else x, hi: x + y }
  }
  action init = {
    nondet a = 0.to(STEPS).oneOf()
    nondet b = 0.to(STEPS).oneOf()
    nondet f = 0.to(4).oneOf()
    all { t' = a, td' = b, form' = f, last' = 0, before' = bounds(a, b) }
  }
  action heat = all { t < STEPS, t' = t + 1, td' = td, form' = form, last' = 1, before' = bounds(t, td) }
  action stiffen = all { td < STEPS, t' = t, td' = td + 1, form' = form, last' = 2, before' = bounds(t, td) }
  action step = any { heat, stiffen }

  val now = bounds(t, td)
  val inv = and {
    now.lo <= now.hi,
    // both bounds grow with both temperatures
    before.lo <= now.lo,
    last > 0 implies before.hi < now.hi,
    // the bounds are at most a factor of two apart
    now.hi <= 2 * now.lo,
  }
}
module thermal_mcq { import thermal_mc(STEPS = 6).* }
module thermal_mct { import thermal_mc(STEPS = 9).* }
