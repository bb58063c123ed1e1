----------------------------- MODULE VertexSet -----------------------------
(***************************************************************************)
(* The vertices of a mesh as a growing sequence of positions.               *)
(*                                                                          *)
(* Positions are vectors of integers on a two-scale lattice: 8k - 1, 8k and *)
(* 8k + 1 are closer than the merge tolerance, other numbers are not.       *)
(* Adding always makes a vertex.  Inserting must find a vertex at the same  *)
(* position, may settle for one within the tolerance, and otherwise makes   *)
(* a vertex.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Group(c) == (c + 4) \div 8
Near(a, b) == \A i \in DOMAIN a : Group(a[i]) = Group(b[i])
Close(V, p) == { v \in DOMAIN V : Near(V[v], p) }
Exact(V, p) == { v \in DOMAIN V : V[v] = p }
New(V, p) == [n |-> Len(V) + 1, old |-> FALSE, V |-> Append(V, p)]
Found(V, v) == [n |-> v, old |-> TRUE, V |-> V]
Outcomes(V, o, p) ==
  IF o = "add" THEN { New(V, p) }
  ELSE { Found(V, v) : v \in Close(V, p) } \cup (IF Exact(V, p) = {} THEN { New(V, p) } ELSE {})
=============================================================================
