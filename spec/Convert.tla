------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Moving one number between the scalar types.  A value is a fraction      *)
(* << n, d >> of wide integers with d > 0.  A floating-point number with P  *)
(* binary digits is << m, e >> for m * 2^e.  Exact types hold any value; a  *)
(* floating-point type holds the value itself when it can and otherwise     *)
(* one of the two numbers next to it.                                       *)
(***************************************************************************)
EXTENDS Wide, TLC
RECURSIVE PowOf2(_)
PowOf2(k) == IF k <= 12 THEN WOf(2 ^ k) ELSE WMul(WOf(4096), PowOf2(k - 12))
Powers == TLCEval([k \in 0..200 |-> PowOf2(k)])
Pow2(k) == IF k <= 200 THEN Powers[k] ELSE PowOf2(k)
WAbs(a) == IF WSgn(a) < 0 THEN WSub(<< >>, a) ELSE a
WLt(a, b) == WSgn(WSub(b, a)) > 0
Value(m, e) == IF e >= 0 THEN << WMul(m, Pow2(e)), WOf(1) >> ELSE << m, Pow2(0 - e) >>
\* sign of v - w
Cmp(v, w) == IF v[2] = w[2] THEN WSgn(WSub(v[1], w[1])) ELSE WSgn(WSub(WMul(v[1], w[2]), WMul(w[1], v[2])))
Less(v, w) == Cmp(v, w) < 0
Minus(v, w) == << WSub(WMul(v[1], w[2]), WMul(w[1], v[2])), WMul(v[2], w[2]) >>
Size(v) == << WAbs(v[1]), v[2] >>
Normal(P, m) == WLe(Pow2(P - 1), WAbs(m)) /\ WLt(WAbs(m), Pow2(P))
\* << m, e >> stands for v in P digits
Held(P, v, m, e) ==
  IF WSgn(v[1]) = 0 THEN WSgn(m) = 0
  ELSE /\ Normal(P, m)
       /\ LET r == Value(m, e)
              gap == Size(Minus(v, r))
          IN \/ Cmp(v, r) = 0
             \/ Less(Size(r), Size(v)) /\ WSgn(m) = WSgn(v[1]) /\ Less(gap, Value(WOf(1), e))
             \/ Less(Size(v), Size(r)) /\ WSgn(m) = WSgn(v[1])
                /\ Less(gap, Value(WOf(1), IF WAbs(m) = Pow2(P - 1) THEN e - 1 ELSE e))
\* k is the whole number v has when its fraction is dropped
Dropped(v, k) == /\ ~Less(Size(v), << WAbs(k), WOf(1) >>)
                 /\ Less(Size(v), << WAdd(WAbs(k), WOf(1)), WOf(1) >>)
                 /\ (WSgn(k) = 0 \/ WSgn(k) = WSgn(v[1]))
=============================================================================
