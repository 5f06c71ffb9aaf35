/// Small-scope state machine of nuclear data (C17): isotopes are created with or without a list of excited states, levels
/// are added to them afterwards, and elements are composed of them.
///
/// MODE 0: each isotope without given levels has an empty list of its own. MODE 1: they share one (must be refuted).
module nuclides_mc {
  const MODE: int
  const MASSES: Set[int]
  const ISOTOPES: int
  const LENGTH: int

  /// levels are numbered in the order of their creation
  type Iso = { amu: int, cell: int }
  /// operations: 0 isotope without levels (mass), 1 isotope with one level (mass), 2 level added to an isotope (number),
  /// 3 element of two isotopes (numbers i <= j, shares q and 4 - q)
  type Op = { op: int, i: int, j: int, q: int }
  var hist: List[Op]
  var isos: List[Iso]
  /// content of the lists of levels
  var heap: List[List[int]]
  /// what has to be in the list of each isotope
  var due: List[List[int]]
  /// four times the masses of the elements
  var mass: List[int]
  var made: int

  action init = all { hist' = [], isos' = [], heap' = [[]], due' = [], mass' = [], made' = 0 }
  action bare(m) = all {
    isos.length() < ISOTOPES,
    isos' = isos.append({ amu: m, cell: if (MODE == 1) 0 else heap.length() }),
    heap' = if (MODE == 1) heap else heap.append([]),
    due' = due.append([]),
    hist' = hist.append({ op: 0, i: m, j: 0, q: 0 }),
    mass' = mass, made' = made,
  }
  action given(m) = all {
    isos.length() < ISOTOPES,
    isos' = isos.append({ amu: m, cell: heap.length() }),
    heap' = heap.append([made]),
    due' = due.append([made]),
    hist' = hist.append({ op: 1, i: m, j: 0, q: 0 }),
    mass' = mass, made' = made + 1,
  }
  action level(k) = all {
    k < isos.length(),
    heap' = if (k < isos.length()) heap.replaceAt(isos[k].cell, heap[isos[k].cell].append(made)) else heap,
    due' = if (k < isos.length()) due.replaceAt(k, due[k].append(made)) else due,
    hist' = hist.append({ op: 2, i: k, j: 0, q: 0 }),
    isos' = isos, mass' = mass, made' = made + 1,
  }
  action compose(i, j, q) = all {
    i < j,
    j < isos.length(),
    mass' = if (i < j and j < isos.length()) mass.append(q * isos[i].amu + (4 - q) * isos[j].amu) else mass,
    hist' = hist.append({ op: 3, i: i, j: j, q: q }),
    isos' = isos, heap' = heap, due' = due, made' = made,
  }
  action step = all {
    hist.length() < LENGTH,
    any {
      nondet m = oneOf(MASSES)
      bare(m),
      nondet m = oneOf(MASSES)
      given(m),
      nondet k = oneOf(0.to(ISOTOPES - 1))
      level(k),
      nondet i = oneOf(0.to(ISOTOPES - 1))
      nondet j = oneOf(0.to(ISOTOPES - 1))
      nondet q = oneOf(Set(0, 1, 4))
      compose(i, j, q),
    }
  }

  pure def lo(a: int, b: int): int = if (a < b) a else b
  pure def lightest(l: List[Iso]): int = l.foldl(1000, (m, x) => lo(m, x.amu))
  pure def heaviest(l: List[Iso]): int = l.foldl(0, (m, x) => if (m < x.amu) x.amu else m)
  val inv = and {
    isos.indices().forall(k => heap[isos[k].cell] == due[k]),
    mass.indices().forall(k => 4 * lightest(isos) <= mass[k] and mass[k] <= 4 * heaviest(isos)),
  }
}
module nuclides_mcq { import nuclides_mc(MODE = 0, MASSES = Set(1, 5), ISOTOPES = 3, LENGTH = 5).* }
module nuclides_mct { import nuclides_mc(MODE = 0, MASSES = Set(1, 5), ISOTOPES = 3, LENGTH = 6).* }
module nuclides_mcs { import nuclides_mc(MODE = 1, MASSES = Set(1, 5), ISOTOPES = 3, LENGTH = 5).* }
