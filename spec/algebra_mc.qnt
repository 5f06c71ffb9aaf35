/// Small-scope state machine of the algebra: all programs of a given length over two atoms.
module algebra_mc {
  import algebra_core.* from "./algebra_core"
  const DEPTH: int
  /// start with two atoms only, or also with an empty combination and a combination of both atoms
  const RICH: bool

  // op: 0 add objects, 1 object + scalar, 2 scalar + object, 3 object * scalar, 4 scalar * object, 5 sum([a, b])
  type Op = { op: int, a: int, b: int, c: int }

  pure val SCALARS = Set(0, 3)
  pure val FACTORS = Set(-1, 0, 1, 2)
  pure val NA = 3

  /// objects that exist at the beginning; the last one is 2 x + 3 y
  pure val BASE: List[Obj] = {
    val x = atomObj(NA, 0, 1)
    val y = atomObj(NA, 1, 1)
    if (RICH) [x, y, emptyObj(NA), addO(mulO(x, 2, 1, Set()), mulO(y, 3, 1, Set()), Set())] else [x, y]
  }

  var heap: List[Obj]
  var hist: List[Op]

  action init = all {
    heap' = BASE,
    hist' = [],
  }

  action push(o: Op, x: Obj): bool = all {
    heap' = heap.append(x),
    hist' = hist.append(o),
  }
  action addObjects = {
    nondet a = 0.to(heap.length() - 1).oneOf()
    nondet b = 0.to(heap.length() - 1).oneOf()
    push({ op: 0, a: a, b: b, c: 0 }, addO(heap[a], heap[b], Set(a, b)))
  }
  action addScalar = {
    nondet a = 0.to(heap.length() - 1).oneOf()
    nondet c = SCALARS.oneOf()
    nondet side = Set(1, 2).oneOf()
    push({ op: side, a: a, b: 0, c: c }, addS(heap[a], c, Set(a)))
  }
  action scale = {
    nondet a = 0.to(heap.length() - 1).oneOf()
    nondet c = FACTORS.oneOf()
    nondet side = Set(3, 4).oneOf()
    push({ op: side, a: a, b: 0, c: c }, mulO(heap[a], c, 1, Set(a)))
  }
  action sumTwo = {
    nondet a = 0.to(heap.length() - 1).oneOf()
    nondet b = 0.to(heap.length() - 1).oneOf()
    push({ op: 5, a: a, b: b, c: 0 }, addO(addS(heap[a], 0, Set()), heap[b], Set(a, b)))
  }
  action step = all {
    hist.length() < DEPTH,
    any { addObjects, addScalar, scale, sumTwo },
  }

  // --- invariants ---
  pure val VALS = [5, 7]
  def v(i: int): int = valueV(heap[i].coef, VALS, 1)
  /// evaluation is a homomorphism for the operation that made each object
  val linear = 0.to(hist.length() - 1).forall(k => {
    val o = hist[k]
    val r = v(k + BASE.length())
    if (o.op == 0 or o.op == 5) r == v(o.a) + v(o.b)
    else if (o.op == 1 or o.op == 2) r == v(o.a) + o.c
    else r == o.c * v(o.a)
  })
  /// the order and grouping of operands does not matter
  val commutes = 0.to(heap.length() - 1).forall(a => 0.to(heap.length() - 1).forall(b =>
    addO(heap[a], heap[b], Set()) == addO(heap[b], heap[a], Set())))
  /// operations only ever append: the atoms and all operands are as they were
  val immutable = and {
    heap.length() == hist.length() + BASE.length(),
    0.to(BASE.length() - 1).forall(i => heap[i] == BASE[i]),
    0.to(hist.length() - 1).forall(k => heap[k + BASE.length()].from.forall(i => i < k + BASE.length())),
  }
  /// every constituent of an operand is a constituent of the result
  val partsKept = 0.to(heap.length() - 1).forall(k => heap[k].from.forall(i => heap[i].parts.subseteq(heap[k].parts)))
  val inv = linear and commutes and immutable and partsKept
}
module algebra_mc2 { import algebra_mc(DEPTH = 2, RICH = true).* }
module algebra_mc3 { import algebra_mc(DEPTH = 3, RICH = false).* }
