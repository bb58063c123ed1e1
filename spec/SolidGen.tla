------------------------------ MODULE SolidGen ------------------------------
(* Larger cube solids and square regions, grown cell by cell at random from *)
(* a few seeds, some of them carved out of a full block.                    *)
EXTENDS Solid, TLC, Json
CONSTANTS N3, N2
VARIABLES V, d, dim, carve, left, done
Side == IF dim = 3 THEN N3 ELSE N2
All == IF dim = 3 THEN (0..(N3 - 1)) \X (0..(N3 - 1)) \X (0..(N3 - 1)) ELSE (0..(N2 - 1)) \X (0..(N2 - 1))
Pick(A) == RandomElement(A)
Init == dim \in {2, 3} /\ carve \in BOOLEAN /\ V = {} /\ d = 2 /\ left = -1 /\ done = FALSE
Start == /\ left = -1 /\ left' = Pick(1..(IF dim = 3 THEN 14 ELSE 10))
         /\ d' = Pick(0..2)
         /\ V' = IF carve THEN All ELSE { Pick(All) }
         /\ UNCHANGED << dim, carve, done >>
\* one cell more or less, if the border stays clean
Grow == /\ left > 0 /\ left' = left - 1
        /\ \E c \in {Pick(All)}, n \in {Pick(1..4)} :
             LET W == IF carve THEN V \ {c} ELSE V \cup {c}
                 ok == Clean(W) /\ W # {} /\ (n = 1 \/ carve \/ \E u \in V : Adjacent(u, c))
             IN V' = IF ok THEN W ELSE V
        /\ UNCHANGED << dim, carve, d, done >>
Finish == /\ left = 0 /\ ~done /\ done' = TRUE
          /\ PrintT("BEHAVIOUR " \o ToJson([dim |-> dim, V |-> V, T |-> IF dim = 3 THEN Surface(V, d) ELSE Fill(V, d)]))
          /\ UNCHANGED << dim, carve, d, V, left >>
Next == Start \/ Grow \/ Finish
=============================================================================
