------------------------------ MODULE session_mcm ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ i: Int, op: Int, q: Int });
  *)
  hist

VARIABLE
  (*
    @type: Seq({ at: Int, c: Int });
  *)
  objs

VARIABLE
  (*
    @type: Seq(Int);
  *)
  heap

VARIABLE
  (*
    @type: Seq(Int);
  *)
  ret

VARIABLE
  (*
    @type: Seq(Int);
  *)
  due

VARIABLE
  (*
    @type: Set(<<Int, Int>>);
  *)
  memo

(*
  @type: (() => Int);
*)
LENGTH == 5

(*
  @type: (() => Int);
*)
CONFIGS == 2

(*
  @type: (() => Int);
*)
OBJECTS == 2

(*
  @type: ((Seq({ at: Int, c: Int })) => Int);
*)
free(os_118) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(a_116, k_116) ==
    IF a_116 < 0
      /\ (\A i_110 \in LET (*
        @type: (() => Set(Int));
      *)
      __quint_var1 == DOMAIN os_118
      IN
      IF __quint_var1 = {}
      THEN {}
      ELSE (__quint_var1 \union {0}) \ {(Len(os_118))}:
        os_118[(i_110 + 1)]["at"]
          /= k_116)
    THEN k_116
    ELSE a_116
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, (-1), (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq(((Len(os_118) + 1) - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Int);
*)
MODE == 3

(*
  @type: (() => Int);
*)
QUERIES == 2

(*
  @type: ((Set(<<Int, Int>>), Int) => Int);
*)
lookup(m_223, k_223) ==
  LET (*
    @type: ((Int, <<Int, Int>>) => Int);
  *)
  __QUINT_LAMBDA2(a_221, e_221) ==
    e_221[2]
  IN
  ApaFoldSet(__QUINT_LAMBDA2, (-1), {
    e_212 \in m_223:
      e_212[1] = k_223
  })

(*
  @type: (() => Int);
*)
SCRIBBLED == -1

(*
  @type: (() => Bool);
*)
init ==
  hist = <<>>
    /\ objs = <<>>
    /\ heap = <<>>
    /\ ret = <<>>
    /\ due = <<>>
    /\ memo = {}

(*
  @type: ((Int) => Bool);
*)
create(c_195) ==
  Len(objs) < OBJECTS
    /\ objs'
      := (Append(objs, [c |->
          c_195,
        at |-> free(objs)]))
    /\ hist'
      := (Append(hist, [op |-> 0,
        i |-> c_195,
        q |-> 0]))
    /\ memo'
      := (IF MODE = 5
      THEN {
        e_179 \in memo:
          e_179[1] \div QUERIES
            /= free(objs)
      }
      ELSE memo)
    /\ heap' := heap
    /\ ret' := ret
    /\ due' := due

(*
  @type: ((Int, Int) => Int);
*)
answer(c_49, q_49) ==
  c_49 * QUERIES
    + q_49

(*
  @type: ((Int) => Bool);
*)
scribble(k_503) ==
  k_503 < Len(ret)
    /\ (IF k_503 < Len(ret)
    THEN due[(k_503 + 1)]
      /= SCRIBBLED
    ELSE FALSE)
    /\ heap'
      := (IF k_503 < Len(ret)
      THEN [
        heap EXCEPT
          ![ret[(k_503 + 1)] + 1] =
            SCRIBBLED
      ]
      ELSE heap)
    /\ due'
      := (IF k_503 < Len(ret)
      THEN [
        due EXCEPT
          ![k_503 + 1] = SCRIBBLED
      ]
      ELSE due)
    /\ hist'
      := (Append(hist, [op |-> 2,
        i |-> k_503,
        q |-> 0]))
    /\ objs' := objs
    /\ ret' := ret
    /\ memo' := memo

(*
  @type: ((Int) => Bool);
*)
drop(i_568) ==
  i_568 < Len(objs)
    /\ (IF i_568 < Len(objs)
    THEN objs[(i_568 + 1)]["at"]
      >= 0
    ELSE FALSE)
    /\ objs'
      := (IF i_568 < Len(objs)
      THEN [
        objs EXCEPT
          ![i_568 + 1] =
            [c |->
                objs[(i_568 + 1)][
                  "c"
                ],
              at |-> -1]
      ]
      ELSE objs)
    /\ hist'
      := (Append(hist, [op |-> 3,
        i |-> i_568,
        q |-> 0]))
    /\ heap' := heap
    /\ ret' := ret
    /\ due' := due
    /\ memo' := memo

(*
  @type: (() => Bool);
*)
inv ==
  \A k_638 \in LET (*
    @type: (() => Set(Int));
  *)
  __quint_var2 == DOMAIN ret
  IN
  IF __quint_var2 = {}
  THEN {}
  ELSE (__quint_var2 \union {0}) \ {(Len(ret))}:
    heap[
      (ret[(k_638 + 1)] + 1)
    ]
      = due[(k_638 + 1)]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ at: Int, c: Int }, Int) => Int);
*)
keyOf(o_79, q_79) ==
  IF MODE = 3
  THEN q_79
  ELSE IF MODE >= 4
  THEN o_79["at"] * QUERIES
    + q_79
  ELSE answer(o_79["c"], q_79)

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: ((Seq(Int), Set(<<Int, Int>>), { at: Int, c: Int }, Int) => { cell: Int, heap: Seq(Int), memo: Set(<<Int, Int>>) });
*)
asked(h_353, m_353,
o_353, q_353) ==
  LET (*
    @type: (() => Int);
  *)
  k ==
    keyOf(o_353, q_353)
  IN
  LET (*
    @type: (() => Int);
  *)
  a ==
    answer(o_353["c"], q_353)
  IN
  LET (*
    @type: (() => Int);
  *)
  found ==
    lookup(m_353, (k))
  IN
  IF MODE = 0
  THEN [heap |->
      Append(h_353, (a)),
    memo |-> m_353,
    cell |-> Len(h_353)]
  ELSE IF found < 0
  THEN IF MODE = 1 \/ MODE >= 4
  THEN [heap |->
      Append((Append(h_353, (a))),
      (a)),
    memo |->
      m_353
        \union {<<
          (k), (Len(h_353))
        >>},
    cell |-> Len(h_353) + 1]
  ELSE [heap |->
      Append(h_353, (a)),
    memo |->
      m_353
        \union {<<
          (k), (Len(h_353))
        >>},
    cell |-> Len(h_353)]
  ELSE IF MODE = 1 \/ MODE >= 4
  THEN [heap |->
      Append(h_353, h_353[
        (found + 1)
      ]),
    memo |-> m_353,
    cell |-> Len(h_353)]
  ELSE [heap |-> h_353,
    memo |-> m_353,
    cell |-> found]

(*
  @type: ((Int, Int) => Bool);
*)
ask(i_438, q_438) ==
  i_438 < Len(objs)
    /\ (IF i_438 < Len(objs)
    THEN objs[(i_438 + 1)]["at"]
      >= 0
    ELSE FALSE)
    /\ (LET (*
      @type: (() => { at: Int, c: Int });
    *)
    o ==
      IF i_438 < Len(objs)
      THEN objs[(i_438 + 1)]
      ELSE [c |-> 0, at |-> 0]
    IN
    LET (*
      @type: (() => { cell: Int, heap: Seq(Int), memo: Set(<<Int, Int>>) });
    *)
    r ==
      asked(heap, memo,
      (o), q_438)
    IN
    heap' := (r)["heap"]
      /\ memo' := (r)["memo"]
      /\ ret'
        := (Append(ret, (r)[
          "cell"
        ]))
      /\ due'
        := (Append(due, (answer((o)[
          "c"
        ], q_438))))
      /\ objs' := objs
      /\ hist'
        := (Append(hist, [op |-> 1,
          i |-> i_438,
          q |-> q_438])))

(*
  @type: (() => Bool);
*)
step ==
  Len(hist) < LENGTH
    /\ ((\E c \in 0 .. CONFIGS - 1:
        create(c))
      \/ (\E i \in 0
        .. OBJECTS - 1:
        \E q \in 0 .. QUERIES - 1:
          ask(i, q))
      \/ (\E k \in 0 .. LENGTH - 1:
        scribble(k))
      \/ (\E i \in 0
        .. OBJECTS - 1:
        drop(i)))

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
