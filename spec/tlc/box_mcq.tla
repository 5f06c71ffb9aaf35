-------------------------------- MODULE box_mcq --------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
CENTRES == { 4, 8, 16, 40 }

VARIABLE
  (*
    @type: { a: Int, b: Int, er: Int, kind: Int, n: Int };
  *)
  q

VARIABLE
  (*
    @type: Seq(Int);
  *)
  result

VARIABLE
  (*
    @type: Bool;
  *)
  warned

(*
  @type: (() => Set(Int));
*)
LIMITS == { 0, 3, 8, 17, 24, 48, 60 }

(*
  @type: (() => Set(Int));
*)
POINTS == { 2, 3, 5 }

(*
  @type: ((Int, Int) => Int);
*)
maxi(a_35, b_35) ==
  IF a_35 < b_35
  THEN b_35
  ELSE a_35

(*
  @type: ((Int, Int) => Int);
*)
mini(a_48, b_48) ==
  IF a_48 < b_48
  THEN a_48
  ELSE b_48

(*
  @type: ((Int, Int, Int) => Int);
*)
ppf(er_80, p_80, d_80) ==
  d_80 * (er_80 - 8) + p_80

(*
  @type: (() => Bool);
*)
init ==
  \E er \in CENTRES:
    q
        = [kind |-> -1, er |-> er, a |-> 0, b |-> 0, n |-> 0]
      /\ result = <<>>
      /\ warned = FALSE

(*
  @type: ((Int, Int) => Int);
*)
cdf(er_64, e_64) ==
  maxi(0, (mini(16, (e_64
    - (er_64 - 8)))))

(*
  @type: ((Int, Int) => Seq(Int));
*)
interval(er_181, c_181) ==
  <<
    (maxi(0, (er_181 - 2 * c_181))),
    (er_181 + 2 * c_181)
  >>

(*
  @type: (() => Int);
*)
n1 == q["n"] - 1

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: ((Int, Int, Int, Int) => Seq(Int));
*)
grid(er_160, a_160, b_160,
n_160) ==
  LET (*
    @type: (() => Int);
  *)
  fa ==
    cdf(er_160, a_160)
  IN
  LET (*
    @type: (() => Int);
  *)
  fb ==
    cdf(er_160, b_160)
  IN
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA1(acc_156, i_156) ==
    Append(acc_156, (IF i_156 = 0
    THEN (n_160 - 1) * a_160
    ELSE IF i_156 = n_160 - 1
    THEN (n_160 - 1) * b_160
    ELSE maxi(((n_160 - 1) * a_160),
    (mini(((n_160 - 1) * b_160), (ppf(er_160,
    (fa * (n_160 - 1)
      + (fb - fa) * i_156), (n_160
      - 1))))))))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq((n_160 - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Bool);
*)
askInterval ==
  \E c \in { 0, 1, 2, 3, 4 }:
    q'
        := [kind |-> 1,
          er |-> q["er"],
          a |-> c,
          b |-> 0,
          n |-> 0]
      /\ result'
        := (interval(q["er"], c))
      /\ warned'
        := (q["er"] - 2 * c < 0)

(*
  @type: (() => Bool);
*)
gridInv ==
  q["kind"] = 0
    => Len(result) = q["n"]
      /\ result[(0 + 1)]
        = n1 * q["a"]
      /\ result[(q["n"] - 1 + 1)]
        = n1 * q["b"]
      /\ (\A i_367 \in 1 .. q["n"] - 1:
        result[(i_367 - 1 + 1)]
          <= result[(i_367 + 1)])
      /\ (\A i_436 \in 1 .. q["n"] - 1:
        LET (*
          @type: (() => Int);
        *)
        hi ==
          maxi(0, (mini((16 * n1), (result[
            (i_436 + 1)
          ]
            - n1 * (q["er"] - 8)))))
        IN
        LET (*
          @type: (() => Int);
        *)
        lo ==
          maxi(0, (mini((16 * n1), (result[
            (i_436 - 1 + 1)
          ]
            - n1 * (q["er"] - 8)))))
        IN
        hi - lo
          = cdf(q["er"], q["b"])
            - cdf(q["er"], q["a"]))

(*
  @type: (() => Bool);
*)
intervalInv ==
  q["kind"] = 1
    => 0 <= result[(0 + 1)]
      /\ (result[(0 + 1)] <= result[(1 + 1)]
        \/ q["er"] < 0)
      /\ cdf(q["er"], result[
        (1 + 1)
      ])
        = 8 + 2 * q["a"]
      /\ (~warned
        => cdf(q["er"], result[
          (1 + 1)
        ])
          - cdf(q["er"], result[
            (0 + 1)
          ])
          = 4 * q["a"])
      /\ (warned => result[(0 + 1)] = 0)

(*
  @type: (() => Bool);
*)
askGrid ==
  \E a \in LIMITS:
    \E b \in {
      x_217 \in LIMITS:
        x_217 > a
    }:
      \E n \in POINTS:
        q'
            := [kind |-> 0,
              er |-> q["er"],
              a |-> a,
              b |-> b,
              n |-> n]
          /\ result'
            := (grid(q["er"], a, b,
            n))
          /\ warned' := FALSE

(*
  @type: (() => Bool);
*)
inv == gridInv /\ intervalInv

(*
  @type: (() => Bool);
*)
step ==
  q["kind"] = -1
    /\ (askGrid \/ askInterval)

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
