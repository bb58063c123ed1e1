----------------------------- MODULE MCConvert -----------------------------
(* One number moved between types, with floating point of P digits.         *)
EXTENDS Convert, FiniteSets
CONSTANTS P, Num, Den, Exp
VARIABLES ty, val, first, was
vars == << ty, val, first, was >>
Types == { "double", "rational", "lazy" }
Floats == { << WOf(m), e >> : m \in { k \in (0 - (2 ^ P - 1))..(2 ^ P - 1) : k >= 2 ^ (P - 1) \/ 0 - k >= 2 ^ (P - 1) }, e \in (0 - Exp)..Exp }
Zero == << << >>, 0 >>
None == << << >>, << >> >>
\* start empty so that values are made by steps
Init == ty = "none" /\ val = None /\ first = None /\ was = None
Start == ty = "none" /\ \E n \in (0 - Num)..Num, d \in 1..Den :
           LET v == << WOf(n), WOf(d) >> IN
           /\ ty' \in { "rational", "lazy" } /\ val' = v /\ was' = v /\ first' = None
Holders == IF WSgn(val[1]) = 0 THEN { Zero } ELSE { f \in Floats : Held(P, val, f[1], f[2]) }
Move == ty # "none" /\ \E t \in Types :
          /\ ty' = t /\ UNCHANGED was
          /\ IF t = "double" THEN \E f \in Holders : LET r == Value(f[1], f[2]) IN val' = r /\ first' = (IF first = None THEN r ELSE first)
             ELSE UNCHANGED << val, first >>
Next == Start \/ Move
\* ------------------------------------------------------------------- claims
\* something always stands for the value, at most two numbers do
Stands == ty # "none" => Cardinality({ f \in Holders : TRUE }) \in 1..2
\* only the first stay in floating point can change the value
Settled == first # None => Cmp(val, first) = 0
Kept == first = None /\ ty # "none" => Cmp(val, was) = 0
Sign == ty # "none" => WSgn(val[1]) = WSgn(was[1])
FV == { Value(f[1], f[2]) : f \in Floats }
\* no floating-point number lies strictly between the value and what stands for it
Between(v, w, x) == (Less(v, x) /\ Less(x, w)) \/ (Less(w, x) /\ Less(x, v))
Nearby == first # None => \A r \in FV : ~Between(was, first, r)
\* a value that fits is never changed
Exact == first # None => ((\E r \in FV : Cmp(r, was) = 0) => Cmp(first, was) = 0)
\* and everything that is next to the value may stand for it
Mine == { r \in FV : WSgn(r[1]) = WSgn(val[1]) }
Below == { r \in Mine : Cmp(r, val) <= 0 }
Above == { r \in Mine : Cmp(r, val) >= 0 }
Next1 == { r \in Below : \A q \in Below : Cmp(q, r) <= 0 } \cup { r \in Above : \A q \in Above : Cmp(q, r) >= 0 }
Nexts == IF Below \cap Above # {} THEN Below \cap Above ELSE Next1
All == ty # "none" /\ WSgn(val[1]) # 0 => { Value(f[1], f[2]) : f \in Holders } = Nexts
Whole == ty # "none" => Cardinality({ k \in (0 - 2 * Num)..(2 * Num) : Dropped(val, WOf(k)) }) = 1
=============================================================================
