------------------------------ MODULE compton_mcq ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
START == { 1, 2, 5, 9 }

(*
  @type: (() => Set(Int));
*)
MASSES == { 0, 1, 2 }

VARIABLE
  (*
    @type: Int;
  *)
  mass

VARIABLE
  (*
    @type: Int;
  *)
  w0

VARIABLE
  (*
    @type: Int;
  *)
  w

VARIABLE
  (*
    @type: Int;
  *)
  s

VARIABLE
  (*
    @type: Int;
  *)
  pol

VARIABLE
  (*
    @type: Int;
  *)
  n

VARIABLE
  (*
    @type: { den: Int, num: Int };
  *)
  cs

(*
  @type: (() => Int);
*)
MAX == 3

(*
  @type: ((Int, Int, Int) => { den: Int, num: Int });
*)
kn(a_73, b_73,
p_73) ==
  [num |->
      a_73
        * (((8 * a_73) * a_73
          + (8 * b_73) * b_73)
          - (p_73 * a_73)
            * b_73),
    den |->
      ((8 * b_73) * b_73)
        * b_73]

(*
  @type: ((Int) => Int);
*)
sin2(t_33) ==
  t_33 * (4 - t_33)

(*
  @type: ((Int) => Int);
*)
weight(p_94) ==
  IF p_94 = 0
  THEN 2
  ELSE IF p_94 = 1
  THEN 4
  ELSE IF p_94 = 2 THEN 2 ELSE 0

(*
  @type: (() => Bool);
*)
init ==
  \E e \in START:
    \E m \in MASSES:
      mass = m
        /\ w0 = e
        /\ w = e
        /\ s = 0
        /\ pol = 0
        /\ n = 0
        /\ cs = [num |-> 0, den |-> 1]

(*
  @type: (() => Bool);
*)
scatter ==
  n < MAX
    /\ (\E t \in 0 .. 4:
      \E p \in 0 .. 3:
        w'
            := (w + t)
          /\ s' := t
          /\ pol' := p
          /\ n' := (n + 1)
          /\ cs'
            := (kn(w, (w
              + t), (sin2(t)
              * weight(p))))
          /\ mass' := mass
          /\ w0' := w0)

(*
  @type: (() => Int);
*)
a == w - s

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step == scatter

(*
  @type: (() => { den: Int, num: Int });
*)
unpolarized ==
  kn((a), w,
  (sin2(s) * 2))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
inv ==
  w >= w0
    /\ w
      <= w0 + 4 * n
    /\ cs["num"] >= 0
    /\ ((n > 0 /\ s = 0)
      /\ (pol = 0 \/ pol = 2)
      => cs["num"] = 2 * cs["den"])
    /\ (kn((a), w,
    (sin2(s) * 4)))[
      "num"
    ]
      + (kn((a), w,
      0))[
        "num"
      ]
      = 2 * (unpolarized)["num"]
    /\ (n > 0 /\ pol = 0
      => cs = unpolarized)
    /\ (n > 0
      /\ (s = 0 \/ s = 4)
      => cs = unpolarized)

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
