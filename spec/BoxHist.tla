------------------------------ MODULE BoxHist ------------------------------
(* Random histories of a box tree: build, insert, invalidate, compact, each *)
(* step with a query box whose answers are observed after it.               *)
EXTENDS Boxes, TLC, Json
CONSTANTS MaxLen, Side
VARIABLES dim, hist, done
Init == dim \in {2, 3} /\ hist = <<>> /\ done = FALSE
RPt(m) == [i \in 1..dim |-> RandomElement(0..m)]
\* thin boxes, flat boxes and points are common
RBox == LET p == RPt(Side)
            s == << 0, 1, 1, 2, Side >>[RandomElement(1..5)]
        IN << p, [i \in 1..dim |-> Mn(Side, p[i] + RandomElement(0..s))] >>
RData(m) == RandomElement(0..m)
OpNames == << "ins", "ins", "ins", "inv", "inv", "compact" >>
Build == hist = <<>> /\ \E k \in {RandomElement({1, 2, 3, 5, 8, 13})} :
            hist' = << [o |-> "build", b |-> [i \in 1..k |-> RBox], d |-> [i \in 1..k |-> RData(7)], q |-> RBox] >>
Step == hist # <<>> /\ \E o \in {OpNames[RandomElement(1..6)]} :
            hist' = Append(hist, [o |-> o, b |-> <<RBox>>, d |-> <<RData(7)>>, q |-> RBox])
Finish == ~done /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([ops |-> hist])) /\ UNCHANGED <<dim, hist>>
Next == IF Len(hist) >= MaxLen THEN Finish ELSE (Build \/ Step) /\ UNCHANGED <<dim, done>>
=============================================================================
