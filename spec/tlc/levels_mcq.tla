------------------------------ MODULE levels_mcq ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
SPINS == { 0, 1, 4 }

VARIABLE
  (*
    @type: Int;
  *)
  phase

VARIABLE
  (*
    @type: { e0: Int, e2: Int, twoJ0: Int, twoJ2: Int, widths: Seq(Int) };
  *)
  s

VARIABLE
  (*
    @type: Int;
  *)
  channel

VARIABLE
  (*
    @type: { den: Int, num: Int };
  *)
  br

VARIABLE
  (*
    @type: { den: Int, num: Int };
  *)
  strength

(*
  @type: (() => Set(Int));
*)
WIDTHS == { 0, 1, 3 }

(*
  @type: ((Seq(Int)) => Int);
*)
total(w_42) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(a_40, x_40) ==
    a_40 + x_40
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, 0, w_42)

(*
  @type: (() => Bool);
*)
init ==
  \E a \in SPINS:
    \E b \in SPINS:
      \E e0 \in { 0, 1 }:
        \E e2 \in { 2, 4 }:
          phase = 0
            /\ s
              = [twoJ0 |-> a,
                twoJ2 |-> b,
                e0 |-> e0,
                e2 |-> e2,
                widths |-> <<>>]
            /\ channel = -1
            /\ br = [num |-> 1, den |-> 1]
            /\ strength = [num |-> 0, den |-> 1]

(*
  @type: (() => Bool);
*)
addWidth ==
  phase = 0
    /\ Len(s["widths"]) < 3
    /\ (\E w \in WIDTHS:
      s'
        := [
          s EXCEPT
            !["widths"] =
              Append(s["widths"], w)
        ])
    /\ phase' := 0
    /\ channel' := channel
    /\ br' := br
    /\ strength' := strength

(*
  @type: (({ e0: Int, e2: Int, twoJ0: Int, twoJ2: Int, widths: Seq(Int) }, Int) => { den: Int, num: Int });
*)
branching(x_70, c_70) ==
  IF c_70 < 0
  THEN [num |-> 1, den |-> 1]
  ELSE [num |->
      x_70["widths"][(c_70 + 1)],
    den |-> total(x_70["widths"])]

(*
  @type: (() => Bool);
*)
bounded ==
  phase = 1
    => 0 <= br["num"]
      /\ br["num"] <= br["den"]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (({ e0: Int, e2: Int, twoJ0: Int, twoJ2: Int, widths: Seq(Int) }, Int) => { den: Int, num: Int });
*)
area(x_125, c_125) ==
  LET (*
    @type: (() => { den: Int, num: Int });
  *)
  b ==
    branching(x_125, c_125)
  IN
  [num |->
      ((x_125["twoJ2"] + 1)
        * x_125["widths"][(0 + 1)])
        * (b)["num"],
    den |->
      (((x_125["e2"] - x_125["e0"])
        * (x_125["e2"] - x_125["e0"]))
        * (x_125["twoJ0"] + 1))
        * (b)["den"]]

(*
  @type: (() => Bool);
*)
excite ==
  phase = 0
    /\ Len(s["widths"]) > 0
    /\ total(s["widths"]) > 0
    /\ (\E c \in -1
      .. Len(s["widths"]) - 1:
      channel' := c
        /\ br'
          := (branching(s, c))
        /\ strength'
          := (area(s, c)))
    /\ phase' := 1
    /\ s' := s

(*
  @type: (() => Bool);
*)
sumRule ==
  phase = 1
    => (LET (*
      @type: (() => { den: Int, num: Int });
    *)
    all_ ==
      area(s, (-1))
    IN
    LET (*
      @type: (() => Int);
    *)
    parts ==
      LET (*
        @type: ((Int, Int) => Int);
      *)
      __QUINT_LAMBDA1(a_317, c_317) ==
        a_317
          + (area(s, c_317))[
            "num"
          ]
      IN
      ApaFoldSet(__QUINT_LAMBDA1, 0, (0
        .. Len(s["widths"]) - 1))
    IN
    parts * (all_)["den"]
      = (all_)["num"]
        * (area(s, 0))["den"])

(*
  @type: (() => Bool);
*)
symmetric ==
  phase = 1
    => (\A c_381 \in 0
      .. Len(s["widths"]) - 1:
      \A d_379 \in 0
        .. Len(s["widths"]) - 1:
        s["widths"][(c_381 + 1)]
          = s["widths"][(d_379 + 1)]
          => area(s, c_381)
            = area(s, d_379))

(*
  @type: (() => Bool);
*)
step ==
  addWidth \/ excite

(*
  @type: (() => Bool);
*)
inv ==
  (bounded /\ sumRule)
    /\ symmetric

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
