------------------------------ MODULE MCSolid ------------------------------
(* Laws of cube solids: their surfaces are closed, enclose as many cubes as *)
(* there are cells, and counting crossings of any ray that meets no edge    *)
(* tells inside from outside.                                               *)
EXTENDS Solid, TLC
CONSTANTS NX, NY, NZ
VARIABLES V, d
All == (0..(NX - 1)) \X (0..(NY - 1)) \X (0..(NZ - 1))
Init == V = {} /\ d \in 0..2
Next == \E c \in All \ V : V' = V \cup {c} /\ UNCHANGED d
Edges(T) == { << t[i], t[(i % 3) + 1] >> : t \in T, i \in 1..3 }
Closed(T) == LET E == Edges(T) IN Cardinality(E) = 3 * Cardinality(T) /\ \A e \in E : << e[2], e[1] >> \in E
\* triangles around a corner form one ring
RECURSIVE Ring(_, _)
Ring(A, B) == LET n == { t \in B \ A : \E s \in A : Cardinality({ s[i] : i \in 1..3 } \cap { t[i] : i \in 1..3 }) = 2 } IN IF n = {} THEN A ELSE Ring(A \cup n, B)
Rings(T) == \A x \in { t[i] : t \in T, i \in 1..3 } :
              LET B == { t \in T : \E i \in 1..3 : t[i] = x } IN Ring({ CHOOSE t \in B : TRUE }, B) = B
RECURSIVE Total(_)
Total(A) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN Dot(t[1], Cross(t[2], t[3])) + Total(A \ {t})
Dirs == { << 1, 0, 0 >>, << 7, 2, 1 >>, << -3, 5, 11 >> }
Probe == { << 5, 6, 7 >>, << 17, 6, 5 >>, << 5, 17, 12 >>, << 12, 13, 17 >>, << 17, 17, 19 >>, << -3, 5, 5 >>, << 6, 18, 6 >>, << 12, 12, 12 >> }
Parity(T) == \A q \in Probe, r \in Dirs :
            Within(V, q) # "on" /\ Generic(q, r, T) => (Odd(q, r, T) <=> Within(V, q) = "in")
Laws == Clean(V) => LET T == TLCEval(Surface(V, d)) IN Closed(T) /\ Rings(T) /\ Total(T) = 6 * S * S * S * Cardinality(V) /\ Parity(T)
=============================================================================
