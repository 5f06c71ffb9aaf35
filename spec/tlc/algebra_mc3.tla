------------------------------ MODULE algebra_mc3 ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
  *)
  heap

(*
  @type: ((Int, Int, Int) => Seq(Int));
*)
unitV(n_613, k_613,
unit_613) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA1(a_611, i_611) ==
    Append(a_611, (IF i_611
      = k_613
    THEN unit_613
    ELSE 0))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((n_613 - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Int);
*)
NA == 3

(*
  @type: (() => Bool);
*)
RICH == FALSE

(*
  @type: ((Int) => Seq(Int));
*)
zeroV(n_587) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA3(a_585, i_585) ==
    Append(a_585, 0)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq((n_587 - 0), __QUINT_LAMBDA2)))

(*
  @type: ((Seq(Int), Seq(Int)) => Seq(Int));
*)
addV(x_541, y_541) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA5(a_539, i_539) ==
    Append(a_539, (x_541[
      (i_539 + 1)
    ]
      + y_541[(i_539 + 1)]))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((Len(x_541) - 0), __QUINT_LAMBDA4)))

(*
  @type: ((Int, Seq(Int), Int) => Seq(Int));
*)
mulV(k_570, x_570,
unit_570) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA7(a_568, i_568) ==
    Append(a_568, ((k_570
      * x_570[(i_568 + 1)])
      \div unit_570))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((Len(x_570) - 0), __QUINT_LAMBDA6)))

(*
  @type: ((Int) => Int);
*)
absI(a_513) ==
  IF a_513 < 0
  THEN -a_513
  ELSE a_513

VARIABLE
  (*
    @type: Seq({ a: Int, b: Int, c: Int, op: Int });
  *)
  hist

(*
  @type: (() => Int);
*)
DEPTH == 3

(*
  @type: (() => Set(Int));
*)
SCALARS == { 0, 3 }

(*
  @type: (() => Set(Int));
*)
FACTORS == { (-1), 0, 1, 2 }

(*
  @type: ((Seq(Int), Seq(Int), Int) => Int);
*)
valueV(x_810, vals_810,
unit_810) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA9(a_806, i_806) ==
    a_806
      + x_810[(i_806 + 1)]
        * (IF i_806
          < Len(vals_810)
        THEN vals_810[(i_806 + 1)]
        ELSE unit_810)
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA9, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA8(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq((Len(x_810) - 0), __QUINT_LAMBDA8)))
    \div unit_810

(*
  @type: (() => Seq(Int));
*)
VALS == <<5, 7>>

(*
  @type: ((Int, Int, Int) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
atomObj(n_638, k_638,
unit_638) ==
  [coef |->
      unitV(n_638, k_638,
      unit_638),
    mag |->
      unitV(n_638, k_638,
      unit_638),
    parts |-> {k_638},
    from |-> {}]

(*
  @type: ((Int) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
emptyObj(n_683) ==
  [coef |-> zeroV(n_683),
    mag |-> zeroV(n_683),
    parts |-> {},
    from |-> {}]

(*
  @type: (({ coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }, { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }, Set(Int)) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
addO(x_720, y_720,
ops_720) ==
  [coef |->
      addV(x_720["coef"], y_720[
        "coef"
      ]),
    mag |->
      addV(x_720["mag"], y_720[
        "mag"
      ]),
    parts |->
      x_720["parts"]
        \union y_720["parts"],
    from |-> ops_720]

(*
  @type: (({ coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }, Int, Int, Set(Int)) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
mulO(x_773, c_773,
unit_773, ops_773) ==
  [coef |->
      mulV(c_773, x_773[
        "coef"
      ], unit_773),
    mag |->
      mulV((absI(c_773)),
      x_773["mag"], unit_773),
    parts |-> x_773["parts"],
    from |-> ops_773]

(*
  @type: (({ a: Int, b: Int, c: Int, op: Int }, { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }) => Bool);
*)
push(o_92, x_92) ==
  heap'
      := (Append(heap, x_92))
    /\ hist'
      := (Append(hist, o_92))

(*
  @type: ((Int, Int) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
constObj(n_667, c_667) ==
  [coef |->
      unitV(n_667, (n_667
        - 1), c_667),
    mag |->
      unitV(n_667, (n_667
        - 1), (absI(c_667))),
    parts |-> {(-1)},
    from |-> {}]

(*
  @type: ((Int) => Int);
*)
v(i_276) ==
  valueV(heap[
    (i_276 + 1)
  ][
    "coef"
  ], (VALS), 1)

(*
  @type: (() => Bool);
*)
partsKept ==
  \A k_469 \in 0 .. Len(heap) - 1:
    \A i_467 \in heap[
      (k_469 + 1)
    ][
      "from"
    ]:
      heap[(i_467 + 1)]["parts"]
        \subseteq heap[
          (k_469 + 1)
        ][
          "parts"
        ]

(*
  @type: (() => Seq({ coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }));
*)
BASE ==
  LET (*
    @type: (() => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
  *)
  x ==
    atomObj((NA), 0, 1)
  IN
  LET (*
    @type: (() => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
  *)
  y ==
    atomObj((NA), 1, 1)
  IN
  IF RICH
  THEN <<
    (x), (y), (emptyObj((NA))),
    (addO((mulO((x),
    2, 1, {})), (mulO((y), 3, 1, {})),
    {}))
  >>
  ELSE <<(x), (y)>>

(*
  @type: (() => Bool);
*)
addObjects ==
  \E a \in 0 .. Len(heap) - 1:
    \E b \in 0 .. Len(heap) - 1:
      push([op |-> 0,
        a |-> a,
        b |-> b,
        c |-> 0], (addO(heap[
        (a + 1)
      ], heap[(b + 1)], { a,
        b })))

(*
  @type: (({ coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) }, Int, Set(Int)) => { coef: Seq(Int), from: Set(Int), mag: Seq(Int), parts: Set(Int) });
*)
addS(x_739, c_739,
ops_739) ==
  addO(x_739, (constObj((Len(x_739[
    "coef"
  ])), c_739)), ops_739)

(*
  @type: (() => Bool);
*)
scale ==
  \E a \in 0 .. Len(heap) - 1:
    \E c \in FACTORS:
      \E side \in { 3, 4 }:
        push([op |-> side,
          a |-> a,
          b |-> 0,
          c |-> c], (mulO(heap[
          (a + 1)
        ], c, 1, {a})))

(*
  @type: (() => Bool);
*)
commutes ==
  \A a_388 \in 0 .. Len(heap) - 1:
    \A b_386 \in 0
      .. Len(heap) - 1:
      addO(heap[
        (a_388 + 1)
      ], heap[(b_386 + 1)], {})
        = addO(heap[
          (b_386 + 1)
        ], heap[(a_388 + 1)], {})

(*
  @type: (() => Bool);
*)
init ==
  heap = BASE
    /\ hist = <<>>

(*
  @type: (() => Bool);
*)
addScalar ==
  \E a \in 0 .. Len(heap) - 1:
    \E c \in SCALARS:
      \E side \in { 1, 2 }:
        push([op |-> side,
          a |-> a,
          b |-> 0,
          c |-> c], (addS(heap[
          (a + 1)
        ], c, {a})))

(*
  @type: (() => Bool);
*)
sumTwo ==
  \E a \in 0 .. Len(heap) - 1:
    \E b \in 0 .. Len(heap) - 1:
      push([op |-> 5,
        a |-> a,
        b |-> b,
        c |-> 0], (addO((addS(heap[
        (a + 1)
      ], 0, {})), heap[(b + 1)], {
      a,
        b })))

(*
  @type: (() => Bool);
*)
linear ==
  \A k_352 \in 0 .. Len(hist) - 1:
    LET (*
      @type: (() => { a: Int, b: Int, c: Int, op: Int });
    *)
    o ==
      hist[(k_352 + 1)]
    IN
    LET (*
      @type: (() => Int);
    *)
    r ==
      v((k_352
        + Len((BASE))))
    IN
    IF (o)["op"] = 0
      \/ (o)["op"] = 5
    THEN r
      = v((o)["a"])
        + v((o)["b"])
    ELSE IF (o)["op"] = 1
      \/ (o)["op"] = 2
    THEN r
      = v((o)["a"])
        + (o)["c"]
    ELSE r
      = (o)["c"]
        * v((o)["a"])

(*
  @type: (() => Bool);
*)
immutable ==
  Len(heap)
      = Len(hist) + Len((BASE))
    /\ (\A i_413 \in 0
      .. Len((BASE)) - 1:
      heap[(i_413 + 1)]
        = (BASE)[(i_413 + 1)])
    /\ (\A k_439 \in 0
      .. Len(hist) - 1:
      \A i_437 \in heap[
        ((k_439 + Len((BASE))) + 1)
      ][
        "from"
      ]:
        i_437
          < k_439 + Len((BASE)))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  Len(hist) < DEPTH
    /\ (addObjects
      \/ addScalar
      \/ scale
      \/ sumTwo)

(*
  @type: (() => Bool);
*)
inv ==
  ((linear /\ commutes)
      /\ immutable)
    /\ partsKept

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
