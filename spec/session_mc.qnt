/// Sessions (C15): objects are created and given up, queries are made, and the caller overwrites what a query returned.
///
/// MODE selects the design of the library: 0 computes every answer, 1 remembers answers and hands out copies,
/// 2 remembers answers and hands out the remembered container itself, 3 remembers answers per query and forgets to
/// distinguish the objects, 4 remembers answers per address of the object, which a later object may get again, 5 does
/// the same, but forgets the answers of an address when an object is created there. The invariant separates the good
/// designs from the others: TLC has to find no violation for 0, 1, and 5, and a violation for 2, 3, and 4.
module session_mc {
  const MODE: int
  const CONFIGS: int
  const QUERIES: int
  const OBJECTS: int
  const LENGTH: int

  /// content of an overwritten container
  pure val SCRIBBLED = -1

  /// operations so far: 0 create (configuration), 1 ask (object, query), 2 overwrite (result), 3 give up (object)
  var hist: List[{ op: int, i: int, q: int }]
  /// configuration and address of each object; the address is -1 if the object was given up
  var objs: List[{ c: int, at: int }]
  /// content of each container that exists
  var heap: List[int]
  /// container of each result, and what the caller must find in it
  var ret: List[int]
  var due: List[int]
  /// remembered answers: key and container
  var memo: Set[(int, int)]

  /// the answer depends on the configuration and on the query, and on nothing else
  pure def answer(c: int, q: int): int = c * QUERIES + q
  pure def keyOf(o: { c: int, at: int }, q: int): int =
    if (MODE == 3) q else if (MODE >= 4) o.at * QUERIES + q else answer(o.c, q)
  /// the lowest free address
  pure def free(os: List[{ c: int, at: int }]): int =
    range(0, os.length() + 1).foldl(-1, (a, k) =>
      if (a < 0 and os.indices().forall(i => os[i].at != k)) k else a)

  action init = all {
    hist' = [], objs' = [], heap' = [], ret' = [], due' = [], memo' = Set()
  }

  action create(c) = all {
    objs.length() < OBJECTS,
    objs' = objs.append({ c: c, at: free(objs) }),
    hist' = hist.append({ op: 0, i: c, q: 0 }),
    memo' = if (MODE == 5) memo.filter(e => e._1 / QUERIES != free(objs)) else memo,
    heap' = heap, ret' = ret, due' = due,
  }

  pure def lookup(m: Set[(int, int)], k: int): int =
    m.filter(e => e._1 == k).fold(-1, (a, e) => e._2)

  /// containers, remembered answers and returned container after a query
  pure def asked(h: List[int], m: Set[(int, int)], o: { c: int, at: int }, q: int): { heap: List[int], memo: Set[(int, int)], cell: int } = {
    val k = keyOf(o, q)
    val a = answer(o.c, q)
    val found = lookup(m, k)
    if (MODE == 0) { heap: h.append(a), memo: m, cell: h.length() }
    else if (found < 0) {
      if (MODE == 1 or MODE >= 4) { heap: h.append(a).append(a), memo: m.union(Set((k, h.length()))), cell: h.length() + 1 }
      else { heap: h.append(a), memo: m.union(Set((k, h.length()))), cell: h.length() }
    }
    else if (MODE == 1 or MODE >= 4) { heap: h.append(h[found]), memo: m, cell: h.length() }
    else { heap: h, memo: m, cell: found }
  }

  action ask(i, q) = all {
    i < objs.length(),
    if (i < objs.length()) objs[i].at >= 0 else false,
    val o = if (i < objs.length()) objs[i] else { c: 0, at: 0 }
    val r = asked(heap, memo, o, q)
    all {
      heap' = r.heap,
      memo' = r.memo,
      ret' = ret.append(r.cell),
      due' = due.append(answer(o.c, q)),
      objs' = objs,
      hist' = hist.append({ op: 1, i: i, q: q }),
    }
  }

  action scribble(k) = all {
    k < ret.length(),
    if (k < ret.length()) due[k] != SCRIBBLED else false,
    heap' = if (k < ret.length()) heap.replaceAt(ret[k], SCRIBBLED) else heap,
    due' = if (k < ret.length()) due.replaceAt(k, SCRIBBLED) else due,
    hist' = hist.append({ op: 2, i: k, q: 0 }),
    objs' = objs, ret' = ret, memo' = memo,
  }

  action drop(i) = all {
    i < objs.length(),
    if (i < objs.length()) objs[i].at >= 0 else false,
    objs' = if (i < objs.length()) objs.replaceAt(i, { c: objs[i].c, at: -1 }) else objs,
    hist' = hist.append({ op: 3, i: i, q: 0 }),
    heap' = heap, ret' = ret, due' = due, memo' = memo,
  }

  action step = all {
    hist.length() < LENGTH,
    any {
      nondet c = oneOf(0.to(CONFIGS - 1))
      create(c),
      nondet i = oneOf(0.to(OBJECTS - 1))
      nondet q = oneOf(0.to(QUERIES - 1))
      ask(i, q),
      nondet k = oneOf(0.to(LENGTH - 1))
      scribble(k),
      nondet i = oneOf(0.to(OBJECTS - 1))
      drop(i),
    }
  }

  /// every result holds what the caller must find in it
  val inv = ret.indices().forall(k => heap[ret[k]] == due[k])
}

module session_mcq { import session_mc(MODE = 0, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
module session_mct { import session_mc(MODE = 0, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 7).* }
module session_mcc { import session_mc(MODE = 1, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
module session_mca { import session_mc(MODE = 2, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
module session_mcm { import session_mc(MODE = 3, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
module session_mci { import session_mc(MODE = 4, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
module session_mcw { import session_mc(MODE = 5, CONFIGS = 2, QUERIES = 2, OBJECTS = 2, LENGTH = 5).* }
