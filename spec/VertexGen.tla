----------------------------- MODULE VertexGen -----------------------------
(* Histories of adding and inserting vertices: random long ones, or all     *)
(* short ones over a few positions.                                         *)
EXTENDS VertexSet, TLC, Json
CONSTANTS MaxLen, Random
VARIABLES dim, hist, done
Pool == << <<0, 0>>, <<1, 0>>, <<-1, 0>>, <<8, 0>>, <<0, 9>> >>
Ops == << "get", "get", "get", "add" >>
Init == dim \in (IF Random THEN {2, 3} ELSE {2}) /\ hist = <<>> /\ done = FALSE
Coord(k) == 8 * (RandomElement(0..2) - 1) + << 0, 0, 0, 1, -1 >>[RandomElement(1..5)]
\* revisiting positions is common
Pos(k) == IF hist # <<>> /\ RandomElement(1..3) = 1 THEN hist[RandomElement(1..Len(hist))].p ELSE [i \in 1..dim |-> Coord(i)]
Step == IF Random
        THEN \E o \in {Ops[RandomElement(1..4)]}, e \in {RandomElement(0..1)} : hist' = Append(hist, [o |-> o, p |-> Pos(Len(hist)), e |-> e])
        ELSE \E o \in {"get", "add"}, k \in DOMAIN Pool, e \in 0..1 : hist' = Append(hist, [o |-> o, p |-> Pool[k], e |-> e])
Finish == ~done /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([ops |-> hist])) /\ UNCHANGED <<dim, hist>>
Next == IF Len(hist) >= MaxLen THEN Finish ELSE Step /\ UNCHANGED <<dim, done>>
=============================================================================
