-------------------------------- MODULE TriEx --------------------------------
(* Every set of N points of a small grid, with every pair as a constraint.   *)
EXTENDS Triang, TLC, Json
CONSTANTS W, H, Lo, Hi
VARIABLES S, c, done
Grid == { << x, y >> : x \in 0..(W - 1), y \in 0..(H - 1) }
RECURSIVE Listed(_)
Listed(R) == IF R = {} THEN << >> ELSE LET q == CHOOSE q \in R : \A r \in R : q[1] < r[1] \/ (q[1] = r[1] /\ q[2] <= r[2]) IN << q >> \o Listed(R \ {q})
Init == S \in { R \in SUBSET Grid : Cardinality(R) \in Lo..Hi } /\ c \in { << i, j >> \in (1..Cardinality(S)) \X (1..Cardinality(S)) : i < j } /\ done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([p |-> Listed(S), c |-> << c >>, job |-> 0])) /\ UNCHANGED <<S, c>>
=============================================================================
