------------------------------- MODULE BoxEx -------------------------------
(* Every short history of a box tree over a few boxes in a row.             *)
EXTENDS Boxes, TLC, Json
CONSTANT Depth
B == << << <<0, 0>>, <<1, 1>> >>, << <<1, 0>>, <<2, 2>> >>, << <<3, 1>>, <<3, 1>> >> >>
Q == << << <<0, 0>>, <<3, 2>> >>, << <<1, 1>>, <<1, 1>> >>, << <<2, 1>>, <<3, 1>> >> >>
VARIABLES hist
Op(o, b, d) == [o |-> o, b |-> <<b>>, d |-> <<d>>, q |-> Q[((Len(hist) + d) % 3) + 1]]
Init == \E k \in 1..3 : hist = << [o |-> "build", b |-> SubSeq(B, 1, k), d |-> SubSeq(<<1, 2, 1>>, 1, k), q |-> Q[1]] >>
Next == /\ Len(hist) <= Depth
        /\ \/ \E b \in 1..3, d \in 1..2 : hist' = Append(hist, Op("ins", B[b], d))
           \/ \E d \in 1..2 : hist' = Append(hist, Op("inv", B[1], d))
           \/ hist' = Append(hist, Op("compact", B[1], 1))
        /\ IF Len(hist) = Depth THEN PrintT("BEHAVIOUR " \o ToJson([ops |-> hist'])) ELSE TRUE
=============================================================================
