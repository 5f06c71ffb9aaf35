------------------------------ MODULE thermal_mct ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Int);
*)
STEPS == 9

VARIABLE
  (*
    @type: Int;
  *)
  t

VARIABLE
  (*
    @type: Int;
  *)
  td

VARIABLE
  (*
    @type: Int;
  *)
  form

VARIABLE
  (*
    @type: Int;
  *)
  last

VARIABLE
  (*
    @type: { hi: Int, lo: Int };
  *)
  before

(*
  @type: ((Int, Int) => { hi: Int, lo: Int });
*)
bounds(a_48, b_48) ==
  LET (*
    @type: (() => Int);
  *)
  x == 8 * 2 ^ a_48
  IN
  LET (*
    @type: (() => Int);
  *)
  y == 3 * 2 ^ b_48
  IN
  [lo |->
      IF x < y
      THEN y
      ELSE x,
    hi |-> x + y]

(*
  @type: (() => Bool);
*)
init ==
  \E a \in 0 .. STEPS:
    \E b \in 0 .. STEPS:
      \E f \in 0 .. 4:
        t = a
          /\ td = b
          /\ form = f
          /\ last = 0
          /\ before
            = bounds(a, b)

(*
  @type: (() => Bool);
*)
heat ==
  t < STEPS
    /\ t' := (t + 1)
    /\ td' := td
    /\ form' := form
    /\ last' := 1
    /\ before'
      := (bounds(t, td))

(*
  @type: (() => Bool);
*)
stiffen ==
  td < STEPS
    /\ t' := t
    /\ td' := (td + 1)
    /\ form' := form
    /\ last' := 2
    /\ before'
      := (bounds(t, td))

(*
  @type: (() => { hi: Int, lo: Int });
*)
now ==
  bounds(t, td)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  heat \/ stiffen

(*
  @type: (() => Bool);
*)
inv ==
  (now)["lo"] <= (now)["hi"]
    /\ before["lo"] <= (now)["lo"]
    /\ (last > 0
      => before["hi"]
        < (now)["hi"])
    /\ (now)["hi"]
      <= 2 * (now)["lo"]

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
