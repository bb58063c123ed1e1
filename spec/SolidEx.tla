------------------------------ MODULE SolidEx ------------------------------
(* All cube solids within a small block and all square regions within a     *)
(* small grid whose border does not touch itself.                           *)
EXTENDS Solid, TLC, Json
CONSTANTS NX, NY, NZ, MX, MY
VARIABLES V, d, dim
All == IF dim = 3 THEN (0..(NX - 1)) \X (0..(NY - 1)) \X (0..(NZ - 1)) ELSE (0..(MX - 1)) \X (0..(MY - 1))
Init == V = {} /\ dim \in {2, 3} /\ d \in IF dim = 3 THEN 0..2 ELSE {2}
Next == \E c \in All \ V : V' = V \cup {c} /\ UNCHANGED << d, dim >>
Report == V # {} /\ Clean(V) => PrintT("BEHAVIOUR " \o ToJson([dim |-> dim, V |-> V, T |-> IF dim = 3 THEN Surface(V, d) ELSE Fill(V, d)]))
=============================================================================
