/// Small-scope state machine of level schemes (C06): an initial state, a resonance with partial widths that are added one
/// by one, and a choice of the decay channel. All quantities are exact rational numbers.
module levels_mc {
  const SPINS: Set[int]
  const WIDTHS: Set[int]

  // channels: 0 initial state, 1 and 2 other states
  type Ratio = { num: int, den: int }
  type Scheme = { twoJ0: int, twoJ2: int, e0: int, e2: int, widths: List[int] }

  var phase: int
  var s: Scheme
  var channel: int
  var br: Ratio
  var strength: Ratio

  pure def total(w: List[int]): int = w.foldl(0, (a, x) => a + x)
  pure def branching(x: Scheme, c: int): Ratio = if (c < 0) { num: 1, den: 1 } else { num: x.widths[c], den: total(x.widths) }
  /// energy-integrated cross section in units of (pi hbar c)^2
  pure def area(x: Scheme, c: int): Ratio = {
    val b = branching(x, c)
    { num: (x.twoJ2 + 1) * x.widths[0] * b.num, den: (x.e2 - x.e0) * (x.e2 - x.e0) * (x.twoJ0 + 1) * b.den }
  }

  action init = {
    nondet a = SPINS.oneOf()
    nondet b = SPINS.oneOf()
    nondet e0 = Set(0, 1).oneOf()
    nondet e2 = Set(2, 4).oneOf()
    all {
      phase' = 0,
      s' = { twoJ0: a, twoJ2: b, e0: e0, e2: e2, widths: [] },
      channel' = -1,
      br' = { num: 1, den: 1 },
      strength' = { num: 0, den: 1 },
    }
  }
  action addWidth = all {
    phase == 0,
    s.widths.length() < 3,
    nondet w = WIDTHS.oneOf()
    s' = { ...s, widths: s.widths.append(w) },
    phase' = 0, channel' = channel, br' = br, strength' = strength,
  }
  action excite = all {
    phase == 0,
    s.widths.length() > 0,
    total(s.widths) > 0,
    nondet c = (-1).to(s.widths.length() - 1).oneOf()
    all { channel' = c, br' = branching(s, c), strength' = area(s, c) },
    phase' = 1, s' = s,
  }
  action step = any { addWidth, excite }

  val bounded = phase == 1 implies (0 <= br.num and br.num <= br.den)
  /// the cross sections of all channels add up to the unrestricted one
  val sumRule = phase == 1 implies {
    val all_ = area(s, -1)
    val parts = 0.to(s.widths.length() - 1).fold(0, (a, c) => a + area(s, c).num)
    parts * all_.den == all_.num * area(s, 0).den
  }
  /// elastic and inelastic channels of equal width have equal strength
  val symmetric = phase == 1 implies 0.to(s.widths.length() - 1).forall(c =>
    0.to(s.widths.length() - 1).forall(d => s.widths[c] == s.widths[d] implies area(s, c) == area(s, d)))
  val inv = bounded and sumRule and symmetric
}
module levels_mcq { import levels_mc(SPINS = Set(0, 1, 4), WIDTHS = Set(0, 1, 3)).* }
module levels_mct { import levels_mc(SPINS = Set(0, 1, 2, 3, 7), WIDTHS = Set(0, 1, 2, 5)).* }
