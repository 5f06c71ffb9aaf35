------------------------------ MODULE config_mct ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: { excited: Int, final: Int, form: Int, kind: Int, regime: Int, region: Int, relative: Int, what: Int };
  *)
  c

(*
  @type: (() => { excited: Int, final: Int, form: Int, kind: Int, regime: Int, region: Int, relative: Int, what: Int });
*)
C0 ==
  [what |-> 0,
    kind |-> 0,
    final |-> 0,
    excited |-> 0,
    regime |-> 0,
    form |-> 0,
    relative |-> 0,
    region |-> 0]

VARIABLE
  (*
    @type: Seq(Int);
  *)
  qs

(*
  @type: (() => Set(Int));
*)
SHAPE_REGIMES == { 0, 1, 2, 3, 4, 5 }

(*
  @type: (() => Set(Int));
*)
HARD == { 0, 6 }

(*
  @type: (() => Bool);
*)
init ==
  c = C0
    /\ qs = <<>>

(*
  @type: (() => Bool);
*)
construct ==
  c["what"] = 0
    /\ (\E k \in 0 .. 4:
      \E f \in 0 .. 2:
        \E e \in 0 .. 1:
          \E r \in SHAPE_REGIMES:
            c'
              := [
                [
                  [
                    [
                      [ (C0) EXCEPT !["what"] = 1 ] EXCEPT
                        !["kind"] = k
                    ] EXCEPT
                      !["final"] = f
                  ] EXCEPT
                    !["excited"] = e
                ] EXCEPT
                  !["regime"] = r
              ])
    /\ qs' := qs

(*
  @type: (() => Bool);
*)
evaluate ==
  c["what"] = 1
    /\ (\E f \in 0 .. 3:
      \E rel \in 0 .. 1:
        \E g \in 0 .. 4:
          c'
            := [
              [
                [
                  [ c EXCEPT !["what"] = 2 ] EXCEPT
                    !["form"] = f
                ] EXCEPT
                  !["relative"] = rel
              ] EXCEPT
                !["region"] = g
            ])
    /\ qs' := qs

(*
  @type: (() => Bool);
*)
quantile ==
  (c["what"] = 0 \/ c["what"] = 4)
    /\ Len(qs) < 3
    /\ (\E q \in 0 .. 6:
      qs'
        := (Append(qs, q)))
    /\ c'
      := [ (C0) EXCEPT !["what"] = 4 ]

(*
  @type: ((Seq(Int), Int) => Int);
*)
answer(l_201, i_201) ==
  IF l_201[(i_201 + 1)]
    \in HARD
  THEN 100 + l_201[(i_201 + 1)]
  ELSE l_201[(i_201 + 1)]

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  construct
    \/ evaluate
    \/ quantile

(*
  @type: (() => Bool);
*)
entrywise ==
  \A i_220 \in 0 .. Len(qs) - 1:
    answer(qs, i_220)
      = answer(<<
        qs[(i_220 + 1)]
      >>, 0)

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
inv ==
  entrywise
    /\ (c["what"] = 2
      => c["kind"] >= 0)
    /\ (c["what"] = 4 <=> Len(qs) > 0)

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
