------------------------------- MODULE rates_mct -------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ c: Int, g: Set(Int), shape: Int });
  *)
  parts

VARIABLE
  (*
    @type: { lower: Int, upper: Int };
  *)
  old

(*
  @type: (() => Seq(Seq(Int)));
*)
SHAPES ==
  <<<<0, 1, 3, 1, 0>>, <<3, 1, 1, 0, 0>>, <<0, 0, 1, 2, 2>>, <<0, 4, 1, 0, 0>>>>

(*
  @type: (() => Set(Int));
*)
FACTORS == { 1, 3 }

(*
  @type: (() => Int);
*)
SIZE == 3

(*
  @type: (() => Int);
*)
N == 4

(*
  @type: ((Int, Int) => Int);
*)
lo(a_36, b_36) ==
  IF a_36 < b_36
  THEN a_36
  ELSE b_36

(*
  @type: ((Seq({ c: Int, g: Set(Int), shape: Int })) => Set(Int));
*)
joint(ps_241) ==
  LET (*
    @type: ((Set(Int), { c: Int, g: Set(Int), shape: Int }) => Set(Int));
  *)
  __QUINT_LAMBDA6(u_239, p_239) ==
    u_239 \union p_239["g"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA6, {}, ps_241)

(*
  @type: ((Int, Int) => Int);
*)
hi(a_49, b_49) ==
  IF a_49 < b_49
  THEN b_49
  ELSE a_49

(*
  @type: (() => Bool);
*)
init ==
  parts = <<>>
    /\ old = [lower |-> 0, upper |-> 1000]

(*
  @type: ((Seq(Int)) => Int);
*)
mode(f_223) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA1(m_221, i_221) ==
    IF f_223[(i_221 + 1)]
      > f_223[(m_221 + 1)]
    THEN i_221
    ELSE m_221
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq(((N + 1) - 0), __QUINT_LAMBDA0)))

(*
  @type: ((Set(Int)) => Seq(Int));
*)
sorted(g_74) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA3(a_72, x_72) ==
    IF x_72 \in g_74
    THEN Append(a_72, x_72)
    ELSE a_72
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq(((N + 1) - 0), __QUINT_LAMBDA2)))

(*
  @type: ((Seq({ c: Int, g: Set(Int), shape: Int })) => Seq(Int));
*)
total(ps_279) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA13(l_277, x_277) ==
    Append(l_277, LET (*
      @type: ((Int, { c: Int, g: Set(Int), shape: Int }) => Int);
    *)
    __QUINT_LAMBDA12(s_274, p_274) ==
      s_274
        + p_274["c"]
          * (SHAPES)[(p_274["shape"] + 1)][
            (x_277 + 1)
          ]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA12, 0, ps_279))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA13, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA11(__quint_var4) == (0 + __quint_var4) - 1
  IN
  MkSeq(((N + 1) - 0), __QUINT_LAMBDA11)))

(*
  @type: ((Seq(Int)) => Int);
*)
integral2(f_197) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA15(s_195, i_195) ==
    (s_195
      + f_197[(i_195 + 1)])
      + f_197[((i_195 + 1) + 1)]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA15, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA14(__quint_var5) == (0 + __quint_var5) - 1
  IN
  MkSeq((N - 0), __QUINT_LAMBDA14)))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: ((Int, Int) => Bool);
*)
add(k_385, c_385) ==
  Len(parts) < SIZE
    /\ parts'
      := (Append(parts, [shape |-> k_385,
        c |-> c_385,
        g |->
          { 0,
            (N),
            (mode((SHAPES)[
              (k_385 + 1)
            ])) }]))
    /\ old' := [lower |-> 0, upper |-> 1000]

(*
  @type: ((Seq(Int), Set(Int)) => Int);
*)
lower(f_123, g_123) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  p == sorted(g_123)
  IN
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA5(s_120, i_120) ==
    s_120
      + lo(f_123[
        ((p)[(i_120 + 1)] + 1)
      ], f_123[
        ((p)[((i_120 + 1) + 1)] + 1)
      ])
        * ((p)[((i_120 + 1) + 1)]
          - (p)[(i_120 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq(((Len((p)) - 1) - 0), __QUINT_LAMBDA4)))

(*
  @type: ((Seq(Int), Set(Int)) => Int);
*)
upper(f_172, g_172) ==
  LET (*
    @type: (() => Seq(Int));
  *)
  p == sorted(g_172)
  IN
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA8(s_169, i_169) ==
    s_169
      + hi(f_172[
        ((p)[(i_169 + 1)] + 1)
      ], f_172[
        ((p)[((i_169 + 1) + 1)] + 1)
      ])
        * ((p)[((i_169 + 1) + 1)]
          - (p)[(i_169 + 1)])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA8, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA7(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq(((Len((p)) - 1) - 0), __QUINT_LAMBDA7)))

(*
  @type: ((Seq({ c: Int, g: Set(Int), shape: Int })) => { lower: Int, upper: Int });
*)
bracket(ps_340) ==
  IF Len(ps_340) = 0
  THEN [lower |-> 0, upper |-> 0]
  ELSE [lower |->
      LET (*
        @type: ((Int, { c: Int, g: Set(Int), shape: Int }) => Int);
      *)
      __QUINT_LAMBDA9(s_314, p_314) ==
        s_314
          + p_314["c"]
            * lower((SHAPES)[
              (p_314["shape"] + 1)
            ], (joint(ps_340)))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA9, 0, ps_340),
    upper |->
      LET (*
        @type: ((Int, { c: Int, g: Set(Int), shape: Int }) => Int);
      *)
      __QUINT_LAMBDA10(s_335, p_335) ==
        s_335
          + p_335["c"]
            * upper((SHAPES)[
              (p_335["shape"] + 1)
            ], (joint(ps_340)))
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA10, 0, ps_340)]

(*
  @type: ((Int, Int) => Bool);
*)
refine(i_445, x_445) ==
  i_445 < Len(parts)
    /\ (IF i_445 < Len(parts)
    THEN ~(x_445
      \in parts[(i_445 + 1)]["g"])
    ELSE FALSE)
    /\ parts'
      := (IF i_445 < Len(parts)
      THEN [
        parts EXCEPT
          ![i_445 + 1] =
            [shape |->
                parts[(i_445 + 1)][
                  "shape"
                ],
              c |->
                parts[(i_445 + 1)]["c"],
              g |->
                parts[(i_445 + 1)]["g"]
                  \union {x_445}]
      ]
      ELSE parts)
    /\ old'
      := (bracket(parts))

(*
  @type: (() => Bool);
*)
inv ==
  LET (*
    @type: (() => Set(Int));
  *)
  u == joint(parts)
  IN
  LET (*
    @type: (() => Seq(Int));
  *)
  f == total(parts)
  IN
  LET (*
    @type: (() => { lower: Int, upper: Int });
  *)
  b == bracket(parts)
  IN
  IF Len(parts) = 0
  THEN TRUE
  ELSE (\A i_552 \in LET (*
      @type: (() => Set(Int));
    *)
    __quint_var6 == DOMAIN parts
    IN
    IF __quint_var6 = {}
    THEN {}
    ELSE (__quint_var6 \union {0}) \ {(Len(parts))}:
      LET (*
        @type: (() => { c: Int, g: Set(Int), shape: Int });
      *)
      p ==
        parts[(i_552 + 1)]
      IN
      LET (*
        @type: (() => Seq(Int));
      *)
      s ==
        (SHAPES)[((p)["shape"] + 1)]
      IN
      2
          * lower((s), (p)[
            "g"
          ])
          <= integral2((s))
        /\ integral2((s))
          <= 2
            * upper((s), (p)[
              "g"
            ])
        /\ lower((s), (p)[
          "g"
        ])
          <= lower((s), (u))
        /\ upper((s), (u))
          <= upper((s), (p)[
            "g"
          ]))
    /\ 2 * (b)["lower"]
      <= integral2((f))
    /\ integral2((f))
      <= 2 * (b)["upper"]
    /\ (b)["lower"]
      <= lower((f), (u))
    /\ upper((f), (u))
      <= (b)["upper"]
    /\ old["lower"] <= (b)["lower"]
    /\ (b)["upper"] <= old["upper"]

(*
  @type: (() => Bool);
*)
step ==
  (\E k \in 0 .. Len((SHAPES)) - 1:
      \E c \in FACTORS:
        add(k, c))
    \/ (\E i \in 0 .. SIZE - 1:
      \E x \in 1 .. N - 1:
        refine(i, x))

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
