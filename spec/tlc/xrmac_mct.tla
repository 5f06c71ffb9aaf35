------------------------------- MODULE xrmac_mct -------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ e: Int, m: Int });
  *)
  rows

VARIABLE
  (*
    @type: Int;
  *)
  q

VARIABLE
  (*
    @type: Set({ den: Int, num: Int });
  *)
  results

(*
  @type: (() => Int);
*)
ROWS == 4

(*
  @type: (() => Set(Int));
*)
ENERGIES == { (-3), (-1), 0, 2 }

(*
  @type: (() => Set(Int));
*)
COEFFS == { (-2), 0, 1, 3 }

(*
  @type: ((Seq({ e: Int, m: Int }), Int, Int) => Bool);
*)
follows(t_268, e_268, m_268) ==
  LET (*
    @type: (() => Int);
  *)
  n_267 == Len(t_268)
  IN
  IF n_267 = 0
  THEN TRUE
  ELSE IF t_268[(n_267 - 1 + 1)]["e"]
    < e_268
  THEN TRUE
  ELSE IF t_268[(n_267 - 1 + 1)]["e"]
      > e_268
    \/ t_268[(n_267 - 1 + 1)]["m"]
      = m_268
  THEN FALSE
  ELSE IF n_267 = 1
  THEN TRUE
  ELSE t_268[(n_267 - 2 + 1)]["e"]
    < e_268

(*
  @type: (() => Set(Int));
*)
QUERIES ==
  { (-8), (-6), (-5), (-4), (-2), (-1), 0, 1, 2, 3, 4, 7 }

(*
  @type: ((Seq({ e: Int, m: Int }), Int) => Set({ den: Int, num: Int }));
*)
value(t_203, x_203) ==
  LET (*
    @type: (() => Int);
  *)
  n_202 == Len(t_203)
  IN
  IF x_203 < 2 * t_203[(0 + 1)]["e"]
  THEN {[num |-> t_203[(0 + 1)]["m"], den |-> 1]}
  ELSE IF x_203
    > 2 * t_203[(n_202 - 1 + 1)]["e"]
  THEN {[num |->
      t_203[(n_202 - 1 + 1)]["m"],
    den |-> 1]}
  ELSE LET (*
    @type: (() => Set(Int));
  *)
  hits ==
    {
      i_95 \in 0 .. n_202 - 1:
        2 * t_203[(i_95 + 1)]["e"]
          = x_203
    }
  IN
  IF hits /= {}
  THEN {
    [num |-> t_203[(i_112 + 1)]["m"],
      den |-> 1]:
      i_112 \in hits
  }
  ELSE {
    LET (*
      @type: (() => Int);
    *)
    d ==
      2
        * (t_203[((i_196 + 1) + 1)]["e"]
          - t_203[(i_196 + 1)]["e"])
    IN
    [num |->
        t_203[(i_196 + 1)]["m"]
          * d
          + (t_203[((i_196 + 1) + 1)]["m"]
            - t_203[(i_196 + 1)]["m"])
            * (x_203
              - 2
                * t_203[(i_196 + 1)]["e"]),
      den |-> d]:
      i_196 \in
        {
          i_141 \in 0 .. n_202 - 2:
            2 * t_203[(i_141 + 1)]["e"]
                < x_203
              /\ x_203
                < 2
                  * t_203[
                    ((i_141 + 1) + 1)
                  ][
                    "e"
                  ]
        }
  }

(*
  @type: (() => Bool);
*)
init ==
  rows = <<>>
    /\ q = -100
    /\ results = {}

(*
  @type: (() => Bool);
*)
write ==
  q = -100
    /\ Len(rows) < ROWS
    /\ (\E e \in ENERGIES:
      \E m \in COEFFS:
        follows(rows, e,
          m)
          /\ rows'
            := (Append(rows, [e |-> e,
              m |-> m]))
          /\ q' := q
          /\ results' := results)

(*
  @type: (() => Bool);
*)
query ==
  q = -100
    /\ Len(rows) >= 2
    /\ rows[(0 + 1)]["e"]
      < rows[(Len(rows) - 1 + 1)]["e"]
    /\ (\E x \in QUERIES:
      q' := x
        /\ results'
          := (value(rows, x))
        /\ rows' := rows)

(*
  @type: (() => Int);
*)
n == Len(rows)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step == write \/ query

(*
  @type: (() => Bool);
*)
inv ==
  (\A i_386 \in 0 .. n - 2:
      rows[(i_386 + 1)]["e"]
        <= rows[((i_386 + 1) + 1)]["e"])
    /\ (q /= -100
      => results /= {}
        /\ Cardinality(results) <= 2
        /\ (Cardinality(results) = 2
          => (\E i_432 \in 0 .. n - 2:
            rows[(i_432 + 1)]["e"]
                = rows[((i_432 + 1) + 1)][
                  "e"
                ]
              /\ 2
                * rows[(i_432 + 1)]["e"]
                = q))
        /\ (\A r_480 \in results:
          (\E i_456 \in 0 .. n - 1:
              rows[(i_456 + 1)]["m"]
                * r_480["den"]
                <= r_480["num"])
            /\ (\E i_477 \in 0 .. n - 1:
              rows[(i_477 + 1)]["m"]
                * r_480["den"]
                >= r_480["num"]))
        /\ (q < 2 * rows[(0 + 1)]["e"]
          => results
            = {[num |-> rows[(0 + 1)]["m"], den |-> 1]}))

(*
  @type: (() => Bool);
*)
q_step == step

(*
  @type: (() => Bool);
*)
q_inv == inv

================================================================================
