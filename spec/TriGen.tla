------------------------------- MODULE TriGen -------------------------------
(* Points with constraints that do not cross.  A face job has the corners   *)
(* of a triangle first and every other point inside it or on its edges.     *)
EXTENDS Triang, TLC, Json
VARIABLES p, K, job, left, done
Pick(S) == RandomElement(S)
Size == 12
Init == p = <<>> /\ K = <<>> /\ job \in {0, 1} /\ left = -1 /\ done = FALSE
Corner3 == << << <<0, 0>>, <<12, 0>>, <<0, 12>> >>, << <<0, 0>>, <<12, 4>>, <<3, 12>> >>, << <<12, 0>>, <<2, 9>>, <<0, 1>> >>, << <<0, 0>>, <<12, 1>>, <<12, 2>> >> >>
Begin == /\ left = -1
         /\ \E n \in {Pick(0..7)}, c \in {Corner3[Pick(1..4)]} : left' = n + (IF job = 1 THEN 0 ELSE 2) /\ p' = IF job = 1 THEN c ELSE << >>
         /\ UNCHANGED <<K, job, done>>
Mix == << 1, 1, 2, 3, 12 >>
\* on a coarse grid, on the line of two others, the same point again, or anywhere
Place(k, m, i, j, x, y) ==
  IF p = << >> THEN << x, y >>
  ELSE CASE m = 1 -> << 4 * (x \div 4), 4 * (y \div 4) >>
         [] m = 2 -> [a \in 1..2 |-> (p[i][a] + p[j][a]) \div 2]
         [] m = 3 -> p[i]
         [] m = 4 -> << x, p[i][2] >>
         [] OTHER -> << x, y >>
Within(q) == job = 0 \/ InTri2(q, p[1], p[2], p[3]) # "Off"
Add == /\ left > 0
       /\ \E m \in {Pick(1..7)}, x \in {Pick(0..Size)}, y \in {Pick(0..Size)}, i \in {Pick(1..(Len(p) + 1))}, j \in {Pick(1..(Len(p) + 1))} :
          \E q \in {Place(0, m, IF i > Len(p) THEN 1 ELSE i, IF j > Len(p) THEN 1 ELSE j, x, y)} :
            /\ p' = IF Within(q) /\ (job = 0 \/ q \notin Spots(p)) THEN Append(p, q) ELSE p
            /\ left' = left - 1
       /\ UNCHANGED <<K, job, done>>
Tie == /\ left = 0 /\ Len(p) > 1
       /\ \E n \in {Pick(0..6)} : \E c \in {[i \in 1..n |-> << Pick(DOMAIN p), Pick(DOMAIN p) >>]} :
            K' = [i \in DOMAIN c |-> c[i]]
       /\ left' = -2 /\ UNCHANGED <<p, job, done>>
\* constraints that cross an earlier one are left out
RECURSIVE Sift(_, _, _)
Sift(c, k, S) == IF k > Len(c) THEN S
                 ELSE Sift(c, k + 1, IF \A i \in DOMAIN S : ~Crossing(p[c[k][1]], p[c[k][2]], p[S[i][1]], p[S[i][2]]) THEN Append(S, c[k]) ELSE S)
Finish == /\ ~done /\ (left = -2 \/ (left = 0 /\ Len(p) <= 1)) /\ done' = TRUE
          /\ PrintT("BEHAVIOUR " \o ToJson([p |-> p, c |-> Sift(K, 1, << >>), job |-> job])) /\ UNCHANGED <<p, K, job, left>>
Next == Begin \/ Add \/ Tie \/ Finish
=============================================================================
