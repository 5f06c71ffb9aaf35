----------------------------- MODULE nuclides_mcq -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ i: Int, j: Int, op: Int, q: Int });
  *)
  hist

VARIABLE
  (*
    @type: Seq({ amu: Int, cell: Int });
  *)
  isos

VARIABLE
  (*
    @type: Seq(Seq(Int));
  *)
  heap

VARIABLE
  (*
    @type: Seq(Seq(Int));
  *)
  due

VARIABLE
  (*
    @type: Seq(Int);
  *)
  mass

VARIABLE
  (*
    @type: Int;
  *)
  made

(*
  @type: (() => Int);
*)
LENGTH == 5

(*
  @type: (() => Set(Int));
*)
MASSES == { 1, 5 }

(*
  @type: (() => Int);
*)
ISOTOPES == 3

(*
  @type: (() => Int);
*)
MODE == 0

(*
  @type: ((Int, Int) => Int);
*)
lo(a_376, b_376) ==
  IF a_376 < b_376
  THEN a_376
  ELSE b_376

(*
  @type: ((Seq({ amu: Int, cell: Int })) => Int);
*)
heaviest(l_415) ==
  LET (*
    @type: ((Int, { amu: Int, cell: Int }) => Int);
  *)
  __QUINT_LAMBDA1(m_413, x_413) ==
    IF m_413 < x_413["amu"]
    THEN x_413["amu"]
    ELSE m_413
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, 0, l_415)

(*
  @type: (() => Bool);
*)
init ==
  hist = <<>>
    /\ isos = <<>>
    /\ heap = <<<<>>>>
    /\ due = <<>>
    /\ mass = <<>>
    /\ made = 0

(*
  @type: ((Int) => Bool);
*)
bare(m_115) ==
  Len(isos) < ISOTOPES
    /\ isos'
      := (Append(isos, [amu |->
          m_115,
        cell |->
          IF MODE = 1
          THEN 0
          ELSE Len(heap)]))
    /\ heap'
      := (IF MODE = 1
      THEN heap
      ELSE Append(heap, <<>>))
    /\ due'
      := (Append(due, <<>>))
    /\ hist'
      := (Append(hist, [op |-> 0,
        i |-> m_115,
        j |-> 0,
        q |-> 0]))
    /\ mass' := mass
    /\ made' := made

(*
  @type: ((Int) => Bool);
*)
given(m_166) ==
  Len(isos) < ISOTOPES
    /\ isos'
      := (Append(isos, [amu |->
          m_166,
        cell |-> Len(heap)]))
    /\ heap'
      := (Append(heap, <<
        made
      >>))
    /\ due'
      := (Append(due, <<made>>))
    /\ hist'
      := (Append(hist, [op |-> 1,
        i |-> m_166,
        j |-> 0,
        q |-> 0]))
    /\ mass' := mass
    /\ made' := (made + 1)

(*
  @type: ((Int) => Bool);
*)
level(k_238) ==
  k_238 < Len(isos)
    /\ heap'
      := (IF k_238 < Len(isos)
      THEN [
        heap EXCEPT
          ![isos[(k_238 + 1)][
            "cell"
          ]
            + 1] =
            Append(heap[
              (isos[
                (k_238 + 1)
              ][
                "cell"
              ]
                + 1)
            ], made)
      ]
      ELSE heap)
    /\ due'
      := (IF k_238 < Len(isos)
      THEN [
        due EXCEPT
          ![k_238 + 1] =
            Append(due[
              (k_238 + 1)
            ], made)
      ]
      ELSE due)
    /\ hist'
      := (Append(hist, [op |-> 2,
        i |-> k_238,
        j |-> 0,
        q |-> 0]))
    /\ isos' := isos
    /\ mass' := mass
    /\ made' := (made + 1)

(*
  @type: ((Int, Int, Int) => Bool);
*)
compose(i_307, j_307,
q_307) ==
  i_307 < j_307
    /\ j_307 < Len(isos)
    /\ mass'
      := (IF i_307 < j_307
        /\ j_307 < Len(isos)
      THEN Append(mass, (q_307
        * isos[(i_307 + 1)][
          "amu"
        ]
        + (4 - q_307)
          * isos[(j_307 + 1)][
            "amu"
          ]))
      ELSE mass)
    /\ hist'
      := (Append(hist, [op |-> 3,
        i |-> i_307,
        j |-> j_307,
        q |-> q_307]))
    /\ isos' := isos
    /\ heap' := heap
    /\ due' := due
    /\ made' := made

(*
  @type: ((Seq({ amu: Int, cell: Int })) => Int);
*)
lightest(l_393) ==
  LET (*
    @type: ((Int, { amu: Int, cell: Int }) => Int);
  *)
  __QUINT_LAMBDA0(m_391, x_391) ==
    lo(m_391, x_391[
      "amu"
    ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, 1000, l_393)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  Len(hist) < LENGTH
    /\ ((\E m \in MASSES:
        bare(m))
      \/ (\E m \in MASSES:
        given(m))
      \/ (\E k \in 0
        .. ISOTOPES - 1:
        level(k))
      \/ (\E i \in 0
        .. ISOTOPES - 1:
        \E j \in 0
          .. ISOTOPES - 1:
          \E q \in { 0, 1, 4 }:
            compose(i, j,
            q)))

(*
  @type: (() => Bool);
*)
inv ==
  (\A k_431 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var0 == DOMAIN isos
    IN
    IF __quint_var0 = {}
    THEN {}
    ELSE (__quint_var0 \union {0}) \ {(Len(isos))}:
      heap[
        (isos[(k_431 + 1)][
          "cell"
        ]
          + 1)
      ]
        = due[(k_431 + 1)])
    /\ (\A k_453 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var1 == DOMAIN mass
    IN
    IF __quint_var1 = {}
    THEN {}
    ELSE (__quint_var1 \union {0}) \ {(Len(mass))}:
      4 * lightest(isos)
          <= mass[(k_453 + 1)]
        /\ mass[(k_453 + 1)]
          <= 4
            * heaviest(isos))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
