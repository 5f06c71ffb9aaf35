------------------------------ MODULE reader_mct ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

VARIABLE
  (*
    @type: Seq({ a: Int, ab: Int, z: Int });
  *)
  file

VARIABLE
  (*
    @type: Int;
  *)
  target

VARIABLE
  (*
    @type: Int;
  *)
  pos

VARIABLE
  (*
    @type: { a: Int, ab: Int, z: Int };
  *)
  cur

(*
  @type: (() => { a: Int, ab: Int, z: Int });
*)
NOTHING == [z |-> 0, a |-> 0, ab |-> 0]

VARIABLE
  (*
    @type: Seq({ a: Int, ab: Int, z: Int });
  *)
  out

VARIABLE
  (*
    @type: Bool;
  *)
  done

(*
  @type: (() => Int);
*)
PARAGRAPHS == 3

(*
  @type: (() => Set(Int));
*)
ZS == { 1, 2, 3 }

(*
  @type: ((Seq({ a: Int, ab: Int, z: Int }), { a: Int, ab: Int, z: Int }) => Bool);
*)
follows(f_111, p_111) ==
  LET (*
    @type: (() => Int);
  *)
  n == Len(f_111)
  IN
  IF n = 0
  THEN TRUE
  ELSE IF f_111[(n - 1 + 1)]["z"]
    < p_111["z"]
  THEN TRUE
  ELSE IF f_111[(n - 1 + 1)]["z"]
    > p_111["z"]
  THEN FALSE
  ELSE f_111[(n - 1 + 1)]["a"]
    < p_111["a"]

(*
  @type: (({ a: Int, ab: Int, z: Int }, { a: Int, ab: Int, z: Int }, Int) => { a: Int, ab: Int, z: Int });
*)
readLine(c_257, p_257,
line_257) ==
  IF line_257 = 0
  THEN [
    c_257 EXCEPT
      !["z"] = p_257["z"]
  ]
  ELSE IF line_257 = 2
  THEN [
    c_257 EXCEPT
      !["a"] = p_257["a"]
  ]
  ELSE IF line_257 = 4
  THEN [
    c_257 EXCEPT
      !["ab"] = p_257["ab"]
  ]
  ELSE c_257

(*
  @type: ((Seq({ a: Int, ab: Int, z: Int }), Int) => Seq({ a: Int, ab: Int, z: Int }));
*)
wanted(f_57, z_57) ==
  LET (*
    @type: ((Seq({ a: Int, ab: Int, z: Int }), { a: Int, ab: Int, z: Int }) => Seq({ a: Int, ab: Int, z: Int }));
  *)
  __QUINT_LAMBDA0(acc_55, p_55) ==
    IF p_55["z"] = z_57
    THEN Append(acc_55, p_55)
    ELSE acc_55
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, <<>>, f_57)

(*
  @type: (() => Bool);
*)
init ==
  file = <<>>
    /\ target = 0
    /\ pos = 0
    /\ cur = NOTHING
    /\ out = <<>>
    /\ done = FALSE

(*
  @type: (() => Bool);
*)
write ==
  target = 0
    /\ Len(file) < PARAGRAPHS
    /\ (\E z \in ZS:
      \E a \in { 1, 2 }:
        \E ab \in { 0, 1, 2 }:
          LET (*
            @type: (() => { a: Int, ab: Int, z: Int });
          *)
          p ==
            [z |-> z,
              a |-> a,
              ab |-> ab]
          IN
          follows(file, (p))
            /\ file'
              := (Append(file, (p)))
            /\ target' := 0
            /\ pos' := 0
            /\ cur' := cur
            /\ out' := out
            /\ done' := done)

(*
  @type: (() => Bool);
*)
open ==
  target = 0
    /\ (\E z \in ZS:
      target' := z)
    /\ file' := file
    /\ pos' := 0
    /\ cur' := cur
    /\ out' := out
    /\ done' := FALSE

(*
  @type: (() => Bool);
*)
read ==
  target > 0
    /\ ~done
    /\ pos < 6 * Len(file)
    /\ file' := file
    /\ target' := target
    /\ pos' := (pos + 1)
    /\ cur'
      := (readLine(cur, file[
        (pos \div 6 + 1)
      ], (pos % 6)))
    /\ out'
      := (IF pos % 6 = 4
        /\ cur["z"] = target
      THEN Append(out, [
        cur EXCEPT
          !["ab"] =
            file[(pos \div 6 + 1)][
              "ab"
            ]
      ])
      ELSE out)
    /\ done' := FALSE

(*
  @type: (() => Bool);
*)
close ==
  target > 0
    /\ ~done
    /\ (IF pos = 6 * Len(file)
    THEN TRUE
    ELSE cur["z"] > target)
    /\ file' := file
    /\ target' := target
    /\ pos' := pos
    /\ cur' := cur
    /\ out' := out
    /\ done' := TRUE

(*
  @type: (() => Bool);
*)
inv ==
  (done
      => out
        = wanted(file, target))
    /\ Len(out)
      <= Len((wanted(file, target)))
    /\ (\A i_399 \in 0 .. Len(out) - 1:
      out[(i_399 + 1)]
        = (wanted(file, target))[
          (i_399 + 1)
        ])

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step ==
  write
    \/ open
    \/ read
    \/ close

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
