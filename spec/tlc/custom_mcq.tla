------------------------------ MODULE custom_mcq ------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Int));
*)
STARTS == { (-1), 0, 2 }

(*
  @type: (() => Set(Int));
*)
WEIGHTS == { 0, 1, 3 }

(*
  @type: ((Seq(Int)) => Int);
*)
sum(l_47) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA0(s_45, v_45) ==
    s_45 + v_45
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA0, 0, l_47)

(*
  @type: (() => Int);
*)
CELLS == 3

VARIABLE
  (*
    @type: Int;
  *)
  lo

VARIABLE
  (*
    @type: Seq(Int);
  *)
  w

VARIABLE
  (*
    @type: { a: Int, b: Int, kind: Int, n: Int };
  *)
  q

VARIABLE
  (*
    @type: Seq({ den: Int, num: Int });
  *)
  result

VARIABLE
  (*
    @type: Bool;
  *)
  warned

(*
  @type: (() => Set(Int));
*)
POINTS == { 2, 3, 4 }

(*
  @type: ((Int, Int) => Int);
*)
maxi(a_60, b_60) ==
  IF a_60 < b_60
  THEN b_60
  ELSE a_60

(*
  @type: ((Int, Int) => Int);
*)
mini(a_73, b_73) ==
  IF a_73 < b_73
  THEN a_73
  ELSE b_73

(*
  @type: ((Int) => { den: Int, num: Int });
*)
whole(v_105) ==
  [num |-> v_105, den |-> 1]

(*
  @type: (({ den: Int, num: Int }, { den: Int, num: Int }) => Bool);
*)
less(x_95, y_95) ==
  x_95["num"] * y_95["den"]
    < y_95["num"] * x_95["den"]

(*
  @type: ((Int) => Set(Seq(Int)));
*)
weightings(n_472) ==
  {
    l_470 \in
      LET (*
        @type: ((Set(Seq(Int)), Int) => Set(Seq(Int)));
      *)
      __QUINT_LAMBDA2(known_463, k_463) ==
        UNION ({
          {
            Append(l_460, v_458):
              v_458 \in WEIGHTS
          }:
            l_460 \in known_463
        })
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA2, {<<>>}, (LET (*
        @type: ((Int) => Int);
      *)
      __QUINT_LAMBDA1(__quint_var0) == (0 + __quint_var0) - 1
      IN
      MkSeq((n_472 - 0), __QUINT_LAMBDA1))):
      sum(l_470) > 0
  }

(*
  @type: ((Seq(Int), Int) => Int);
*)
below(l_123, k_123) ==
  sum((SubSeq(l_123, (0 + 1), (maxi(0,
  (mini((Len(l_123)), k_123)))))))

(*
  @type: (() => Bool);
*)
ordered ==
  \A i_753 \in 1 .. Len(result) - 1:
    ~(less(result[
      (i_753 + 1)
    ], result[(i_753 - 1 + 1)]))

(*
  @type: (() => Bool);
*)
densityInv ==
  q["kind"] = 3
    => result[(0 + 1)]["num"] >= 0
      /\ result[(0 + 1)]["num"]
        <= result[(0 + 1)]["den"]

(*
  @type: (() => Bool);
*)
init ==
  \E s \in STARTS:
    \E l \in weightings((CELLS)):
      lo = s
        /\ w = l
        /\ q = [kind |-> -1, a |-> 0, b |-> 0, n |-> 0]
        /\ result = <<>>
        /\ warned = FALSE

(*
  @type: ((Int, Seq(Int), { den: Int, num: Int }) => Int);
*)
cumulative(s_192, l_192,
e_192) ==
  LET (*
    @type: (() => Int);
  *)
  x ==
    e_192["num"]
      - s_192 * e_192["den"]
  IN
  LET (*
    @type: (() => Int);
  *)
  k ==
    IF x < 0
    THEN -1
    ELSE x \div e_192["den"]
  IN
  IF k < 0
  THEN 0
  ELSE IF k >= Len(l_192)
  THEN sum(l_192)
    * e_192["den"]
  ELSE below(l_192, (k))
    * e_192["den"]
    + l_192[(k + 1)]
      * (x
        - k * e_192["den"])

(*
  @type: ((Int, Seq(Int), Int, Int) => { den: Int, num: Int });
*)
quantile(s_269, l_269,
p_269, d_269) ==
  LET (*
    @type: (() => Set(Int));
  *)
  full ==
    {
      k_224 \in
        (LET (*
          @type: (() => Set(Int));
        *)
        __quint_var1 == DOMAIN l_269
        IN
        IF __quint_var1 = {}
        THEN {}
        ELSE (__quint_var1 \union {0}) \ {(Len(l_269))}):
        below(l_269, k_224)
            * d_269
            < p_269
          /\ p_269
            <= below(l_269, (k_224
              + 1))
              * d_269
    }
  IN
  IF p_269 <= 0
  THEN whole(s_269)
  ELSE LET (*
    @type: (({ den: Int, num: Int }, Int) => { den: Int, num: Int });
  *)
  __QUINT_LAMBDA3(r_265, k_265) ==
    [num |->
        (((s_269 + k_265)
          * d_269)
          * l_269[(k_265 + 1)]
          + p_269)
          - below(l_269, k_265)
            * d_269,
      den |->
        d_269
          * l_269[(k_265 + 1)]]
  IN
  ApaFoldSet(__QUINT_LAMBDA3, (whole((s_269
    + Len(l_269)))), (full))

(*
  @type: (() => Bool);
*)
askDensity ==
  \E k \in -1 .. CELLS:
    q'
        := [kind |-> 3,
          a |-> lo + k,
          b |-> 0,
          n |-> 1]
      /\ result'
        := <<
          [num |->
              below(w, (k
                + 1))
                - below(w, k),
            den |-> sum(w)]
        >>
      /\ warned' := FALSE
      /\ lo' := lo
      /\ w' := w

(*
  @type: (() => Bool);
*)
q_init == init

(*
  @type: ((Int, Seq(Int), Int, Int, Int) => Seq({ den: Int, num: Int }));
*)
grid(s_356, l_356,
a_356, b_356, n_356) ==
  LET (*
    @type: (() => Int);
  *)
  fa ==
    cumulative(s_356, l_356,
    (whole(a_356)))
  IN
  LET (*
    @type: (() => Int);
  *)
  fb ==
    cumulative(s_356, l_356,
    (whole(b_356)))
  IN
  LET (*
    @type: ((Seq({ den: Int, num: Int }), Int) => Seq({ den: Int, num: Int }));
  *)
  __QUINT_LAMBDA5(acc_352, i_352) ==
    LET (*
      @type: (() => { den: Int, num: Int });
    *)
    x ==
      quantile(s_356, l_356,
      (fa * (n_356 - 1)
        + (fb - fa)
          * i_352), (n_356 - 1))
    IN
    Append(acc_352, (IF i_352 = 0
    THEN whole(a_356)
    ELSE IF i_352 = n_356 - 1
    THEN whole(b_356)
    ELSE IF less((x), (whole(a_356)))
    THEN whole(a_356)
    ELSE IF less((whole(b_356)),
    (x))
    THEN whole(b_356)
    ELSE x))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((n_356 - 0), __QUINT_LAMBDA4)))

(*
  @type: ((Int, Seq(Int), Int, Int) => Seq({ den: Int, num: Int }));
*)
shares(s_403, l_403,
c_403, n_403) ==
  LET (*
    @type: ((Seq({ den: Int, num: Int }), Int) => Seq({ den: Int, num: Int }));
  *)
  __QUINT_LAMBDA7(acc_401, i_401) ==
    Append(acc_401, (quantile(s_403,
    l_403, (sum(l_403)
      * ((8 - c_403) * (n_403 - 1)
        + (2 * c_403) * i_401)), (16
      * (n_403 - 1)))))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA6(__quint_var3) == (0 + __quint_var3) - 1
  IN
  MkSeq((n_403 - 0), __QUINT_LAMBDA6)))

(*
  @type: (({ den: Int, num: Int }, Int, Int) => Bool);
*)
at(x_734, p_734, d_734) ==
  cumulative(lo, w,
  x_734)
    * d_734
    = p_734 * x_734["den"]

(*
  @type: (() => Bool);
*)
askGrid ==
  \E a \in -1 .. CELLS:
    \E b \in {
      x_524 \in 0 .. CELLS + 1:
        x_524 > a
    }:
      \E n \in POINTS:
        q'
            := [kind |-> 0,
              a |-> lo + a,
              b |-> lo + b,
              n |-> n]
          /\ result'
            := (grid(lo, w,
            (lo + a), (lo
              + b), n))
          /\ warned' := FALSE
          /\ lo' := lo
          /\ w' := w

(*
  @type: (() => Bool);
*)
askShares ==
  \E c \in 0 .. 8:
    \E n \in POINTS:
      q'
          := [kind |-> 1,
            a |-> c,
            b |-> 0,
            n |-> n]
        /\ result'
          := (shares(lo, w,
          c, n))
        /\ warned' := FALSE
        /\ lo' := lo
        /\ w' := w

(*
  @type: ((Int, Seq(Int), Int) => Seq({ den: Int, num: Int }));
*)
interval(s_437, l_437,
c_437) ==
  LET (*
    @type: (() => Seq({ den: Int, num: Int }));
  *)
  x ==
    shares(s_437, l_437,
    c_437, 2)
  IN
  <<
    (IF less((x)[(0 + 1)], (whole(0)))
    THEN whole(0)
    ELSE (x)[(0 + 1)]), (x)[(1 + 1)]
  >>

(*
  @type: (() => Bool);
*)
gridInv ==
  q["kind"] = 0
    => Len(result) = q["n"]
      /\ result[(0 + 1)]
        = whole(q["a"])
      /\ result[(q["n"] - 1 + 1)]
        = whole(q["b"])
      /\ ordered
      /\ (\A i_836 \in 0 .. q["n"] - 1:
        LET (*
          @type: (() => Int);
        *)
        fa ==
          cumulative(lo, w,
          (whole(q["a"])))
        IN
        LET (*
          @type: (() => Int);
        *)
        fb ==
          cumulative(lo, w,
          (whole(q["b"])))
        IN
        at(result[
          (i_836 + 1)
        ], (fa * (q["n"] - 1)
          + (fb - fa)
            * i_836), (q["n"] - 1)))

(*
  @type: (() => Bool);
*)
sharesInv ==
  q["kind"] = 1
    => Len(result) = q["n"]
      /\ ordered
      /\ (\A i_894 \in 0 .. q["n"] - 1:
        at(result[
          (i_894 + 1)
        ], (sum(w)
          * ((8 - q["a"])
            * (q["n"] - 1)
            + (2 * q["a"]) * i_894)), (16
          * (q["n"] - 1))))

(*
  @type: (() => Bool);
*)
intervalInv ==
  q["kind"] = 2
    => result[(0 + 1)]["num"] >= 0
      /\ (warned
        => result[(0 + 1)] = whole(0))
      /\ (~warned
        => at(result[(0 + 1)], (sum(w)
          * (8 - q["a"])), 16))
      /\ (warned /\ q["a"] > 0
        => cumulative(lo, w,
        (whole(0)))
          * 16
          >= sum(w)
            * (8 - q["a"]))
      /\ ((at(result[(1 + 1)], (sum(w)
            * (8 + q["a"])), 16)
          \/ result[(1 + 1)]["num"] < 0)
        \/ warned)

(*
  @type: (() => Bool);
*)
askInterval ==
  \E c \in 0 .. 8:
    q'
        := [kind |-> 2, a |-> c, b |-> 0, n |-> 2]
      /\ result'
        := (interval(lo, w,
        c))
      /\ warned'
        := (less((shares(lo,
        w, c, 2))[
          (0 + 1)
        ], (whole(0))))
      /\ lo' := lo
      /\ w' := w

(*
  @type: (() => Bool);
*)
inv ==
  ((gridInv /\ sharesInv)
      /\ intervalInv)
    /\ densityInv

(*
  @type: (() => Bool);
*)
step ==
  q["kind"] = -1
    /\ (askGrid
      \/ askShares
      \/ askInterval
      \/ askDensity)

(*
  @type: (() => Bool);
*)
q_inv == inv

(*
  @type: (() => Bool);
*)
q_step == step

================================================================================
