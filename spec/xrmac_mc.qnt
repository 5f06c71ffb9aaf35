/// Small-scope state machine of a table of attenuation coefficients (C11). Energies and coefficients are powers of two
/// and represented by their exponents, so the log-log interpolation is an exact fraction. A table is written row by
/// row; two rows with the same energy are an absorption edge. Queries are at half-integer exponents.
module xrmac_mc {
  const ROWS: int
  const ENERGIES: Set[int]
  const COEFFS: Set[int]
  const QUERIES: Set[int]

  type Row = { e: int, m: int }
  var rows: List[Row]
  /// query in units of 1/2, or -100 before the query
  var q: int
  /// permitted results: num / den
  var results: Set[{ num: int, den: int }]

  pure def value(t: List[Row], x: int): Set[{ num: int, den: int }] = {
    val n = t.length()
    if (x < 2 * t[0].e) Set({ num: t[0].m, den: 1 })
    else if (x > 2 * t[n - 1].e) Set({ num: t[n - 1].m, den: 1 })
    else {
      val hits = 0.to(n - 1).filter(i => 2 * t[i].e == x)
      if (hits != Set()) hits.map(i => { num: t[i].m, den: 1 })
      else 0.to(n - 2).filter(i => 2 * t[i].e < x and x < 2 * t[i + 1].e).map(i => {
        val d = 2 * (t[i + 1].e - t[i].e)
        { num: t[i].m * d + (t[i + 1].m - t[i].m) * (x - 2 * t[i].e), den: d }
      })
    }
  }
  /// energies increase, except for the second row of an absorption edge
  pure def follows(t: List[Row], e: int, m: int): bool = {
    val n = t.length()
    if (n == 0) true
    else if (t[n - 1].e < e) true
    else if (t[n - 1].e > e or t[n - 1].m == m) false
    else if (n == 1) true
    else t[n - 2].e < e
  }
  action init = all { rows' = [], q' = -100, results' = Set() }
  action write = all {
    q == -100,
    rows.length() < ROWS,
    nondet e = ENERGIES.oneOf()
    nondet m = COEFFS.oneOf()
    all {
      follows(rows, e, m),
      rows' = rows.append({ e: e, m: m }),
      q' = q,
      results' = results,
    }
  }
  action query = all {
    q == -100,
    rows.length() >= 2,
    rows[0].e < rows[rows.length() - 1].e,
    nondet x = QUERIES.oneOf()
    all { q' = x, results' = value(rows, x), rows' = rows }
  }
  action step = any { write, query }

  val n = rows.length()
  val inv = and {
    // the table is ordered
    0.to(n - 2).forall(i => rows[i].e <= rows[i + 1].e),
    q != -100 implies and {
      // there is exactly one value, except at an absorption edge, where there are two
      results != Set(),
      results.size() <= 2,
      results.size() == 2 implies 0.to(n - 2).exists(i => rows[i].e == rows[i + 1].e and 2 * rows[i].e == q),
      // interpolation stays between the neighbours, extrapolation is constant
      results.forall(r => and {
        0.to(n - 1).exists(i => rows[i].m * r.den <= r.num),
        0.to(n - 1).exists(i => rows[i].m * r.den >= r.num),
      }),
      q < 2 * rows[0].e implies results == Set({ num: rows[0].m, den: 1 }),
    },
  }
}
module xrmac_mcq { import xrmac_mc(ROWS = 3, ENERGIES = Set(-3, -1, 0, 2), COEFFS = Set(-2, 0, 1, 3), QUERIES = Set(-8, -6, -5, -4, -2, -1, 0, 1, 2, 3, 4, 7)).* }
module xrmac_mct { import xrmac_mc(ROWS = 4, ENERGIES = Set(-3, -1, 0, 2), COEFFS = Set(-2, 0, 1, 3), QUERIES = Set(-8, -6, -5, -4, -2, -1, 0, 1, 2, 3, 4, 7)).* }
