/// Configurations of calls: construct an object, then call it. TLC enumerates all of them, the drivers run all of them.
module config_mc {
  const SHAPE_REGIMES: Set[int]

  /// what: 0 nothing yet, 1 resonance constructed, 2 resonance evaluated, 3 thermal conversion, 4 quantiles
  /// kind: line shape; final: restricted to a final state; excited: initial state is excited
  /// regime: natural width compared to Doppler width; form: container of the argument; relative: energies relative to the
  /// resonance energy; region: part of the line shape
  type Config = { what: int, kind: int, final: int, excited: int, regime: int, form: int, relative: int, region: int }
  var c: Config
  var qs: List[int]

  pure val C0 = { what: 0, kind: 0, final: 0, excited: 0, regime: 0, form: 0, relative: 0, region: 0 }
  action init = all { c' = C0, qs' = [] }
  action construct = all {
    c.what == 0,
    nondet k = 0.to(4).oneOf()
    nondet f = 0.to(2).oneOf()
    nondet e = 0.to(1).oneOf()
    nondet r = SHAPE_REGIMES.oneOf()
    c' = { ...C0, what: 1, kind: k, final: f, excited: e, regime: r },
    qs' = qs,
  }
  action evaluate = all {
    c.what == 1,
    nondet f = 0.to(3).oneOf()
    nondet rel = 0.to(1).oneOf()
    nondet g = 0.to(4).oneOf()
    c' = { ...c, what: 2, form: f, relative: rel, region: g },
    qs' = qs,
  }
  /// array of probabilities, built element by element; classes 0 .. 6 from 0 to 1
  action quantile = all {
    c.what == 0 or c.what == 4,
    qs.length() < 3,
    nondet q = 0.to(6).oneOf()
    qs' = qs.append(q),
    c' = { ...C0, what: 4 },
  }
  action step = any { construct, evaluate, quantile }

  // Model of the inversion: entries of the classes in HARD may not converge; an entry is then answered by the
  // approximation. The answer for an entry must be a function of that entry alone.
  pure val HARD = Set(0, 6)
  pure def answer(l: List[int], i: int): int = if (HARD.contains(l[i])) 100 + l[i] else l[i]
  val entrywise = 0.to(qs.length() - 1).forall(i => answer(qs, i) == answer([qs[i]], 0))
  val inv = and {
    entrywise,
    c.what == 2 implies c.kind >= 0,
    c.what == 4 iff qs.length() > 0,
  }
}
module config_mcq { import config_mc(SHAPE_REGIMES = Set(0, 1, 2)).* }
module config_mct { import config_mc(SHAPE_REGIMES = Set(0, 1, 2, 3, 4, 5)).* }
