------------------------------ MODULE darboux_mct ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ f: Int, x: Int });
  *)
  pts

VARIABLE
  (*
    @type: Bool;
  *)
  refined

VARIABLE
  (*
    @type: { lower: Int, upper: Int };
  *)
  old

(*
  @type: (() => Int);
*)
SIZE == 5

(*
  @type: (() => Set(Int));
*)
XS == { (-2), (-1), 0, 1, 3, 4 }

(*
  @type: (() => Set(Int));
*)
FS == { (-2), (-1), 0, 1 }

(*
  @type: ((Seq({ f: Int, x: Int }), Int) => Bool);
*)
after(p_208, x_208) ==
  IF Len(p_208) = 0
  THEN TRUE
  ELSE p_208[(Len(p_208) - 1 + 1)][
    "x"
  ]
    < x_208

(*
  @type: ((Int, Int) => Int);
*)
lo(a_33, b_33) ==
  IF a_33 < b_33
  THEN a_33
  ELSE b_33

(*
  @type: ((Int, Int) => Int);
*)
hi(a_46, b_46) ==
  IF a_46 < b_46
  THEN b_46
  ELSE a_46

(*
  @type: ((Seq({ f: Int, x: Int }), Int, { f: Int, x: Int }) => Seq({ f: Int, x: Int }));
*)
insert(p_319, k_319,
q_319) ==
  LET (*
    @type: ((Seq({ f: Int, x: Int }), Int) => Seq({ f: Int, x: Int }));
  *)
  __QUINT_LAMBDA1(a_317, i_317) ==
    IF i_317 = k_319
    THEN Append((Append(a_317, p_319[
      (i_317 + 1)
    ])), q_319)
    ELSE Append(a_317, p_319[
      (i_317 + 1)
    ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((Len(p_319) - 0), __QUINT_LAMBDA0)))

(*
  @type: ((Seq({ f: Int, x: Int })) => Int);
*)
trapez2(p_184) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA7(s_182, i_182) ==
    s_182
      + (p_184[(i_182 + 1)]["f"]
        + p_184[((i_182 + 1) + 1)][
          "f"
        ])
        * (p_184[
          ((i_182 + 1) + 1)
        ][
          "x"
        ]
          - p_184[(i_182 + 1)][
            "x"
          ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq(((Len(p_184) - 1) - 0), __QUINT_LAMBDA6)))

(*
  @type: (() => Bool);
*)
init ==
  pts = <<>>
    /\ refined = FALSE
    /\ old = [lower |-> 0, upper |-> 0]

(*
  @type: (() => Bool);
*)
extend ==
  ~refined
    /\ Len(pts) < SIZE - 1
    /\ (\E x \in XS:
      \E f \in FS:
        after(pts, x)
          /\ pts'
            := (Append(pts, [x |->
                x,
              f |-> f]))
          /\ refined' := FALSE
          /\ old' := old)

(*
  @type: ((Seq({ f: Int, x: Int }), Int, { f: Int, x: Int }) => Bool);
*)
fits(p_283, i_283,
q_283) ==
  IF i_283 + 1 >= Len(p_283)
  THEN FALSE
  ELSE ((p_283[(i_283 + 1)]["x"]
          < q_283["x"]
        /\ q_283["x"]
          < p_283[
            ((i_283 + 1) + 1)
          ][
            "x"
          ])
      /\ lo(p_283[
        (i_283 + 1)
      ][
        "f"
      ], p_283[((i_283 + 1) + 1)][
        "f"
      ])
        <= q_283["f"])
    /\ q_283["f"]
      <= hi(p_283[
        (i_283 + 1)
      ][
        "f"
      ], p_283[((i_283 + 1) + 1)][
        "f"
      ])

(*
  @type: ((Seq({ f: Int, x: Int })) => Int);
*)
lower(p_92) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA3(s_90, i_90) ==
    s_90
      + lo(p_92[
        (i_90 + 1)
      ][
        "f"
      ], p_92[((i_90 + 1) + 1)][
        "f"
      ])
        * (p_92[((i_90 + 1) + 1)][
          "x"
        ]
          - p_92[(i_90 + 1)]["x"])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA2(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq(((Len(p_92) - 1) - 0), __QUINT_LAMBDA2)))

(*
  @type: ((Seq({ f: Int, x: Int })) => Int);
*)
upper(p_138) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA5(s_136, i_136) ==
    s_136
      + hi(p_138[
        (i_136 + 1)
      ][
        "f"
      ], p_138[((i_136 + 1) + 1)][
        "f"
      ])
        * (p_138[
          ((i_136 + 1) + 1)
        ][
          "x"
        ]
          - p_138[(i_136 + 1)][
            "x"
          ])
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, 0, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq(((Len(p_138) - 1) - 0), __QUINT_LAMBDA4)))

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
refine ==
  Len(pts) >= 2
    /\ Len(pts) < SIZE
    /\ (\E i \in 0 .. SIZE - 2:
      \E x \in XS:
        \E f \in FS:
          fits(pts, i,
            [x |-> x, f |-> f])
            /\ pts'
              := (insert(pts, i,
              [x |-> x, f |-> f]))
            /\ refined' := TRUE
            /\ old'
              := [lower |->
                  lower(pts),
                upper |->
                  upper(pts)])

(*
  @type: (() => Bool);
*)
inv ==
  (\A i_454 \in 0 .. Len(pts) - 2:
      pts[(i_454 + 1)]["x"]
        < pts[((i_454 + 1) + 1)][
          "x"
        ])
    /\ lower(pts)
      <= upper(pts)
    /\ 2 * lower(pts)
      <= trapez2(pts)
    /\ trapez2(pts)
      <= 2 * upper(pts)
    /\ (refined
      => old["lower"]
          <= lower(pts)
        /\ upper(pts)
          <= old["upper"])

(*
  @type: (() => Bool);
*)
step ==
  extend \/ refine

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
