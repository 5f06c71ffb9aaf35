----------------------------- MODULE partition_mcq -----------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
POINTS == { (-2), (-1), 0, 1, 3 }

VARIABLE
  (*
    @type: Seq(Int);
  *)
  x0

VARIABLE
  (*
    @type: Int;
  *)
  p

VARIABLE
  (*
    @type: Int;
  *)
  q

VARIABLE
  (*
    @type: { a: Int, b: Int };
  *)
  y

VARIABLE
  (*
    @type: Seq(Int);
  *)
  parts

(*
  @type: (({ a: Int, b: Int }, Int) => Int);
*)
second(yy_55, e_55) ==
  IF yy_55["a"]
    = yy_55["b"]
  THEN 1
  ELSE yy_55["b"]
    ^ (e_55 + 1)
    - yy_55["a"]
      ^ (e_55 + 1)

VARIABLE
  (*
    @type: Int;
  *)
  total

VARIABLE
  (*
    @type: Bool;
  *)
  split

(*
  @type: (() => Int);
*)
SIZE == 4

(*
  @type: ((Seq(Int), Int) => Seq(Int));
*)
insert(xs_195, x_195) ==
  LET (*
    @type: (() => { done: Bool, l: Seq(Int) });
  *)
  r ==
    LET (*
      @type: (({ done: Bool, l: Seq(Int) }, Int) => { done: Bool, l: Seq(Int) });
    *)
    __QUINT_LAMBDA2(s_188, v_188) ==
      IF ~(s_188["done"])
        /\ x_195 < v_188
      THEN [l |->
          Append((Append(s_188["l"], x_195)),
          v_188),
        done |-> TRUE]
      ELSE [l |->
          Append(s_188["l"], v_188),
        done |-> s_188["done"]]
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA2, [l |-> <<>>, done |-> FALSE], xs_195)
  IN
  (r)["l"]

(*
  @type: ((Seq(Int)) => Int);
*)
suml(l_140) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA3(a_138, b_138) ==
    a_138 + b_138
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, 0, l_140)

(*
  @type: ((Int, Int, Int, Int, { a: Int, b: Int }) => Int);
*)
piece(a_85, b_85,
e_85, f_85, yy_85) ==
  (b_85 ^ (e_85 + 1)
    - a_85 ^ (e_85 + 1))
    * second(yy_85, f_85)

(*
  @type: (() => Bool);
*)
inv ==
  (\A i_369 \in 0
      .. Len(x0) - 2:
      x0[(i_369 + 1)]
        < x0[
          ((i_369 + 1) + 1)
        ])
    /\ Len(parts)
      = Len(x0) - 1
    /\ suml(parts)
      = total

(*
  @type: ((Seq(Int), Int, Int, { a: Int, b: Int }) => Seq(Int));
*)
pieces(xs_125, e_125,
f_125, yy_125) ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA1(l_123, i_123) ==
    Append(l_123, (piece(xs_125[
      (i_123 + 1)
    ], xs_125[
      ((i_123 + 1) + 1)
    ], e_125, f_125, yy_125)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
  IN
  MkSeq(((Len(xs_125) - 1) - 0), __QUINT_LAMBDA0)))

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
init ==
  \E a \in POINTS:
    \E b \in POINTS:
      \E e \in 0 .. 3:
        \E f \in 0 .. 2:
          \E yy \in { [a |-> 0, b |-> 0],
            [a |-> 0, b |-> 2],
            [a |-> -1, b |-> 3] }:
            a < b
              /\ (yy["a"]
                = yy["b"]
                => f = 0)
              /\ x0
                = <<a, b>>
              /\ p = e
              /\ q = f
              /\ y = yy
              /\ parts
                = pieces(<<
                  a, b
                >>, e, f, yy)
              /\ total
                = piece(a,
                b, e, f,
                yy)
              /\ split = FALSE

(*
  @type: (() => Bool);
*)
divide ==
  Len(x0) < SIZE
    /\ (\E x \in POINTS:
      LET (*
        @type: (() => Seq(Int));
      *)
      xs ==
        insert(x0, x)
      IN
      x0[(0 + 1)] < x
        /\ x
          < x0[
            (Len(x0) - 1 + 1)
          ]
        /\ (\A i_319 \in LET (*
          @type: (() => Set(Int));
        *)
        __quint_var1 == DOMAIN x0
        IN
        IF __quint_var1 = {}
        THEN {}
        ELSE (__quint_var1 \union {0}) \ {(Len(x0))}:
          x0[(i_319 + 1)]
            /= x)
        /\ x0' := (xs)
        /\ p' := p
        /\ q' := q
        /\ y' := y
        /\ parts'
          := (pieces((xs),
          p, q, y))
        /\ total' := total
        /\ split' := TRUE)

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: (() => Bool);
*)
step == divide

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
