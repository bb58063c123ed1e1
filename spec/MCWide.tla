------------------------------- MODULE MCWide -------------------------------
(* Wide arithmetic agrees with TLC's own on values that fit, and is a ring with order. *)
EXTENDS Wide, TLC
Vals == {0, 1, -1, 7, 9999, -9999, 10000, -10000, 10001, -12345, 30000, 99999999, -100000000, 1000000000, -1000000000, 123456789}
VARIABLES a, b, c
Init == a = 0 /\ b = 0 /\ c = 0
Next == \/ a' \in Vals /\ UNCHANGED << b, c >>
        \/ b' \in Vals /\ UNCHANGED << a, c >>
        \/ c' \in Vals /\ UNCHANGED << a, b >>
W(x) == WOf(x)
Sg(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Fits == W(a + b) = WAdd(W(a), W(b)) /\ W(a - b) = WSub(W(a), W(b)) /\ WSgn(W(a)) = Sg(a) /\ (WLe(W(a), W(b)) <=> a <= b)
Ring == LET x == W(a) y == W(b) z == W(c) IN
        /\ WMul(x, y) = WMul(y, x)
        /\ WMul(x, WAdd(y, z)) = WAdd(WMul(x, y), WMul(x, z))
        /\ WMul(WMul(x, y), z) = WMul(x, WMul(y, z))
        /\ WSub(WMul(WSub(x, y), WAdd(x, y)), WSub(WMul(x, x), WMul(y, y))) = << >>
        /\ WSgn(WMul(x, y)) = Sg(a) * Sg(b)
Small == (a \in -30000..30000 /\ b \in -30000..30000) => WMul(W(a), W(b)) = W(a * b)
=============================================================================
