---------------------------- MODULE MCVertexSet ----------------------------
(* Laws: inserting keeps positions distinct, a second insertion at the same *)
(* position makes nothing new, and answers stay within the tolerance.       *)
EXTENDS VertexSet
CONSTANTS Depth, Coords
VARIABLES V, n, plain
Init == V = <<>> /\ n = 0 /\ plain = TRUE
Next == n < Depth /\ n' = n + 1 /\ \E x, y \in Coords, o \in {"get", "add"} : \E r \in Outcomes(V, o, << x - 9, y - 9 >>) :
          V' = r.V /\ plain' = (plain /\ o = "get")
Distinct == plain => \A a, b \in DOMAIN V : a # b => V[a] # V[b]
Idempotent == \A v \in DOMAIN V : \A r \in Outcomes(V, "get", V[v]) : r.old /\ r.V = V /\ Near(V[r.n], V[v])
FarApart == \A x, y \in Coords : LET p == << x - 9, y - 9 >> IN
   Close(V, p) = {} => Outcomes(V, "get", p) = { New(V, p) }
Equivalence == \A a, b, c \in DOMAIN V : Near(V[a], V[b]) /\ Near(V[b], V[c]) => Near(V[a], V[c])
=============================================================================
