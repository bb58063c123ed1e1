------------------------------ MODULE BoolGen ------------------------------
(* Random computations: operands grown cell by cell, moved so that planes     *)
(* coincide (flat), stay apart (free), both, or so that the operand lies in a  *)
(* block (inside), and combined one after the                                 *)
(* other.  A step whose result could not be held by a mesh is not taken.      *)
EXTENDS Bool, TLC, Json
CONSTANTS Most, Dims
VARIABLES dim, way, want, st, V, left, tries, done
Pick(A) == RandomElement(A)
All == IF dim = 3 THEN (0..1) \X (0..1) \X (0..1) ELSE (0..2) \X (0..2)
Zero == [i \in 1..dim |-> 0]
Flat == { -24, -18, -12, -6, 0, 6, 12, 18, 24 }
Free == { i \in -23..23 : i % 12 # 0 }
Corner == [i \in 1..dim |-> 0]
Move(n) == IF way = "inside" THEN 0..12 ELSE IF way = "flat" \/ (way = "mixed" /\ n = 1) THEN Flat ELSE Free
Size == 1..(IF dim = 3 THEN 5 ELSE 6)
Init == /\ dim \in Dims /\ way \in {"flat", "free", "mixed", "inside"} /\ want \in 2..Most
        /\ st = << >> /\ V = {} /\ left = -1 /\ tries = 0 /\ done = FALSE
Start == /\ left = -1 /\ ~done /\ Len(st) < want /\ tries < 12
         /\ \E n \in {Pick(Size)}, full \in {Pick(1..5)} :
            IF way = "inside" /\ st # << >> /\ full > 1 THEN left' = 0 /\ V' = { Corner }
            ELSE IF full = 1 \/ (way = "inside" /\ st = << >>) THEN left' = 0 /\ V' = All ELSE left' = n - 1 /\ V' = { Pick(All) }
         /\ UNCHANGED << dim, way, want, st, tries, done >>
Grow == /\ left > 0 /\ left' = left - 1
        /\ \E c \in {Pick(All)} : V' = IF Clean(V \cup {c}) THEN V \cup {c} ELSE V
        /\ UNCHANGED << dim, way, want, st, tries, done >>
Place == /\ left = 0 /\ left' = -1 /\ tries' = tries + 1 /\ V' = {}
         /\ \E op \in {Pick({"union", "intersection", "difference"})}, d \in {Pick(0..2)}, n \in {<< Pick(1..2), Pick(1..2), Pick(1..2) >>} :
            \E s \in {IF st = << >> THEN Zero ELSE TLCEval([i \in 1..dim |-> Pick(Move(n[i]))])} :
              LET x == Append(st, [op |-> IF st = << >> THEN "start" ELSE op, V |-> V, s |-> s, d |-> d])
              IN st' = IF Sound(x) THEN x ELSE st
         /\ UNCHANGED << dim, way, want, done >>
Steps == [k \in DOMAIN st |-> [op |-> st[k].op, V |-> st[k].V, s |-> st[k].s, T |-> IF dim = 3 THEN Surface(st[k].V, st[k].d) ELSE Fill(st[k].V, st[k].d)]]
Finish == /\ left = -1 /\ ~done /\ done' = TRUE /\ Len(st) >= 2 /\ (Len(st) = want \/ tries >= 12)
          /\ PrintT("BEHAVIOUR " \o ToJson([dim |-> dim, st |-> Steps]))
          /\ UNCHANGED << dim, way, want, st, V, left, tries >>
Next == Start \/ Grow \/ Place \/ Finish
=============================================================================
