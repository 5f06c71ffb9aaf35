------------------------------ MODULE arrays_mct ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
SIZES == { 1, 2, 3, 4 }

VARIABLE
  (*
    @type: Seq({ arg: Int, op: Int });
  *)
  ops

VARIABLE
  (*
    @type: Seq(Int);
  *)
  start

VARIABLE
  (*
    @type: { items: Seq(Int), shape: Seq(Int) };
  *)
  x

(*
  @type: ((Int) => Seq(Int));
*)
upto(n_362) ==
  IF n_362 <= 0
  THEN <<>>
  ELSE LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((n_362 - 0), __QUINT_LAMBDA0)

VARIABLE
  (*
    @type: { items: Seq(Int), shape: Seq(Int) };
  *)
  y

VARIABLE
  (*
    @type: { items: Seq(Int), shape: Seq(Int) };
  *)
  fx

(*
  @type: ((Int) => Int);
*)
value(i_33) ==
  (7 * i_33) * i_33 - 3

(*
  @type: (() => Int);
*)
DEPTH == 4

(*
  @type: (() => Int);
*)
COLUMN == 3

(*
  @type: (() => Int);
*)
ROW == 4

(*
  @type: (() => Int);
*)
REPEAT == 8

(*
  @type: (() => Int);
*)
TRANSPOSE == 5

(*
  @type: (() => Int);
*)
FOLD == 6

(*
  @type: (() => Int);
*)
REVERSE == 0

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }) => Int);
*)
width(a_407) ==
  IF Len(a_407["shape"]) = 2
  THEN a_407["shape"][(1 + 1)]
  ELSE 1

(*
  @type: (() => Int);
*)
STRIDE == 1

(*
  @type: (() => Int);
*)
TWICE == 2

(*
  @type: (() => Int);
*)
HEAD == 7

(*
  @type: (() => Int);
*)
LIMIT == 16

(*
  @type: ((Seq(Int)) => Int);
*)
prod(l_377) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA8(a_375, b_375) ==
    a_375 * b_375
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, 1, l_377)

(*
  @type: ((Seq(Int), Int) => Int);
*)
axis(s_795, k_795) ==
  IF k_795 < Len(s_795)
  THEN s_795[
    ((Len(s_795) - 1) - k_795 + 1)
  ]
  ELSE 1

(*
  @type: ((Int, Int) => Int);
*)
common(a_842, b_842) ==
  IF a_842 = 1
  THEN b_842
  ELSE a_842

(*
  @type: ((Int) => { items: Seq(Int), shape: Seq(Int) });
*)
vector(n_389) ==
  [shape |-> <<n_389>>,
    items |-> upto(n_389)]

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }) => { items: Seq(Int), shape: Seq(Int) });
*)
image(a_56) ==
  [shape |-> a_56["shape"],
    items |->
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA1(l_52, i_52) ==
        Append(l_52, (value(i_52)))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, a_56["items"])]

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }, Int) => Bool);
*)
possible(a_551, op_551) ==
  LET (*
    @type: (() => Int);
  *)
  rank == Len(a_551["shape"])
  IN
  IF rank = 0
  THEN FALSE
  ELSE IF (op_551 = COLUMN
      \/ op_551 = ROW)
    \/ op_551 = REPEAT
  THEN rank = 1
  ELSE IF op_551 = TRANSPOSE
  THEN rank = 2
  ELSE IF op_551 = FOLD
  THEN rank = 2
    \/ a_551["shape"][(0 + 1)] % 2 = 0
  ELSE TRUE

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }, Seq(Int)) => { items: Seq(Int), shape: Seq(Int) });
*)
pickRows(a_463, rows_463) ==
  LET (*
    @type: (() => Int);
  *)
  w ==
    width(a_463)
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  items ==
    LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA3(l_440, r_440) ==
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA2(m_438, c_438) ==
        Append(m_438, a_463["items"][
          ((r_440 * w
            + c_438)
            + 1)
        ])
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA2, l_440, (upto((w))))
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA3, <<>>, rows_463)
  IN
  [shape |->
      IF Len(a_463["shape"]) = 2
      THEN <<(Len(rows_463)), (w)>>
      ELSE <<(Len(rows_463))>>,
    items |-> items]

(*
  @type: ((Seq(Int), Seq(Int)) => Bool);
*)
fits(s_829, t_829) ==
  \A k_827 \in { 0, 1 }:
    (axis(s_829, k_827)
          = axis(t_829, k_827)
        \/ axis(s_829, k_827)
          = 1)
      \/ axis(t_829, k_827)
        = 1

(*
  @type: ((Seq(Int), Seq(Int)) => Seq(Int));
*)
joint(s_896, t_896) ==
  LET (*
    @type: (() => Int);
  *)
  rank ==
    IF Len(s_896) < Len(t_896)
    THEN Len(t_896)
    ELSE Len(s_896)
  IN
  IF rank = 0
  THEN <<>>
  ELSE IF rank = 1
  THEN <<
    (common((axis(s_896,
    0)), (axis(t_896, 0))))
  >>
  ELSE <<
    (common((axis(s_896,
    1)), (axis(t_896, 1)))), (common((axis(s_896,
    0)), (axis(t_896, 0))))
  >>

(*
  @type: ((Seq(Int), Int, Int) => Int);
*)
source(s_927, row_927,
col_927) ==
  (IF axis(s_927, 1) = 1
  THEN 0
  ELSE row_927)
    * axis(s_927, 0)
    + (IF axis(s_927, 0) = 1
    THEN 0
    ELSE col_927)

(*
  @type: (() => Bool);
*)
init ==
  \E n \in SIZES:
    \E m \in SIZES:
      ops = <<>>
        /\ start
          = <<n, m>>
        /\ x
          = vector(n)
        /\ y
          = vector(m)
        /\ fx
          = image((vector(n)))

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }, Int) => { items: Seq(Int), shape: Seq(Int) });
*)
apply(a_773, op_773) ==
  LET (*
    @type: (() => Int);
  *)
  rank == Len(a_773["shape"])
  IN
  IF ~(possible(a_773, op_773))
  THEN a_773
  ELSE LET (*
    @type: (() => Int);
  *)
  n == a_773["shape"][(0 + 1)]
  IN
  IF op_773 = REVERSE
  THEN pickRows(a_773, LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA4(l_590, i_590) ==
    Append(l_590, ((n - 1)
      - i_590))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA4, <<>>, (upto((n)))))
  ELSE IF op_773 = STRIDE
  THEN pickRows(a_773, LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA5(l_611, i_611) ==
    Append(l_611, (2 * i_611))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (upto(((n
    + 1)
    \div 2)))))
  ELSE IF op_773 = TWICE
  THEN pickRows(a_773, (upto((n))
    \o upto((n))))
  ELSE IF op_773 = COLUMN
  THEN [shape |-> <<(n), 1>>,
    items |-> a_773["items"]]
  ELSE IF op_773 = ROW
  THEN [shape |-> <<1, (n)>>,
    items |-> a_773["items"]]
  ELSE IF op_773 = TRANSPOSE
  THEN LET (*
    @type: (() => Int);
  *)
  w == a_773["shape"][(1 + 1)]
  IN
  [shape |-> <<(w), (n)>>,
    items |->
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA7(l_684, c_684) ==
        LET (*
          @type: ((Seq(Int), Int) => Seq(Int));
        *)
        __QUINT_LAMBDA6(m_682, r_682) ==
          Append(m_682, a_773["items"][
            ((r_682 * w
              + c_684)
              + 1)
          ])
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA6, l_684, (upto((n))))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA7, <<>>, (upto((w))))]
  ELSE IF op_773 = FOLD
  THEN [shape |->
      IF rank = 1
      THEN <<2, (n \div 2)>>
      ELSE <<
        (n * a_773["shape"][(1 + 1)])
      >>,
    items |-> a_773["items"]]
  ELSE IF op_773 = HEAD
  THEN pickRows(a_773, <<0>>)
  ELSE IF op_773 = REPEAT
  THEN [shape |-> <<2, (n)>>,
    items |->
      a_773["items"] \o a_773["items"]]
  ELSE LET (*
    @type: (() => { items: Seq(Int), shape: Seq(Int) });
  *)
  r ==
    pickRows(a_773, <<0>>)
  IN
  [shape |->
      IF rank = 2
      THEN <<a_773["shape"][(1 + 1)]>>
      ELSE <<>>,
    items |-> (r)["items"]]

(*
  @type: (({ items: Seq(Int), shape: Seq(Int) }, Seq(Int)) => { items: Seq(Int), shape: Seq(Int) });
*)
stretch(a_975, shape_975) ==
  LET (*
    @type: (() => Int);
  *)
  rows ==
    axis(shape_975, 1)
  IN
  LET (*
    @type: (() => Int);
  *)
  cols ==
    axis(shape_975, 0)
  IN
  [shape |-> shape_975,
    items |->
      LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA10(l_969, r_969) ==
        LET (*
          @type: ((Seq(Int), Int) => Seq(Int));
        *)
        __QUINT_LAMBDA9(m_967, c_967) ==
          Append(m_967, a_975["items"][
            (source(a_975["shape"], r_969,
            c_967)
              + 1)
          ])
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA9, l_969, (upto((cols))))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA10, <<>>, (upto((rows))))]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  Len(ops) < DEPTH
    /\ (\E op \in 0 .. 9:
      \E arg \in 0 .. 1:
        LET (*
          @type: (() => { items: Seq(Int), shape: Seq(Int) });
        *)
        a ==
          IF arg = 0
          THEN x
          ELSE y
        IN
        LET (*
          @type: (() => { items: Seq(Int), shape: Seq(Int) });
        *)
        r ==
          apply((a), op)
        IN
        possible((a), op)
          /\ (IF Len(ops) = 0
          THEN TRUE
          ELSE ops[(Len(ops) - 1 + 1)][
            "arg"
          ]
            <= arg)
          /\ Len((r)["items"])
            <= LIMIT
          /\ ops'
            := (Append(ops, [arg |->
                arg,
              op |-> op]))
          /\ start' := start
          /\ x'
            := (IF arg = 0
            THEN r
            ELSE x)
          /\ y'
            := (IF arg = 0
            THEN y
            ELSE r)
          /\ fx'
            := (IF arg = 0
            THEN apply(fx, op)
            ELSE fx))

(*
  @type: (() => Bool);
*)
inv ==
  prod(x["shape"])
      = Len(x["items"])
    /\ prod(y["shape"])
      = Len(y["items"])
    /\ Len(x["items"]) > 0
    /\ Len(y["items"]) > 0
    /\ fx
      = image(x)
    /\ fits(x["shape"], y[
      "shape"
    ])
      = fits(y["shape"], x[
        "shape"
      ])
    /\ (fits(x["shape"], y[
      "shape"
    ])
      => joint(x["shape"], y[
          "shape"
        ])
          = joint(y["shape"], x[
            "shape"
          ])
        /\ prod((joint(x[
          "shape"
        ], y["shape"])))
          = Len((stretch(x, (joint(x[
            "shape"
          ], y["shape"]))))[
            "items"
          ])
        /\ stretch((image(x)),
        (joint(x["shape"], y[
          "shape"
        ])))
          = image((stretch(x,
          (joint(x["shape"], y[
            "shape"
          ])))))
        /\ (x["shape"] = y["shape"]
          => stretch(x, (joint(x[
            "shape"
          ], y["shape"])))
            = x))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
