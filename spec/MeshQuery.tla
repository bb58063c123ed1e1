----------------------------- MODULE MeshQuery -----------------------------
(* What the queries of a mesh must answer, in terms of its triangles only.  *)
EXTENDS Mesh

\* one turn around a vertex, counter-clockwise: n lists the neighbours, f the
\* triangle between each neighbour and the next one, << >> over a gap
NextIn(s, i) == s[(i % Len(s)) + 1]
RingOk(F, v, n, f) ==
  /\ Len(n) = Len(f)
  /\ { n[i] : i \in DOMAIN n } = Nbrs(F, v) /\ Len(n) = Cardinality(Nbrs(F, v))
  /\ { f[i] : i \in DOMAIN f } \ { << >> } = Star(F, v)
  /\ \A i \in DOMAIN n : IF f[i] = << >> THEN << v, n[i] >> \notin Dir(F)
                         ELSE f[i] = Canon(<< v, n[i], NextIn(n, i) >>)
\* outgoing edges in the same order
TurnOk(F, v, o) ==
  /\ Len(o) = Cardinality(Nbrs(F, v))
  /\ { o[i] : i \in DOMAIN o } = { << v, w >> : w \in Nbrs(F, v) }
  /\ \A i \in DOMAIN o : << v, o[i][2] >> \in Dir(F) => Canon(<< v, o[i][2], NextIn(o, i)[2] >>) \in F

Joined(F, a, b) == << a, b >> \in Spokes(F)
One(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : TRUE
Common(F, a, b) == (Nbrs(F, a) \cap Nbrs(F, b)) \ { a, b }
Around(F, a, b) == (Nbrs(F, a) \cup Nbrs(F, b)) \ { a, b }
Doubles(F, a, b) == ~Joined(F, a, b) \/ Common(F, a, b) \ Opposite(F, a, b) # {}
TwoGon(F, a, b) == ~Joined(F, a, b) \/ (Inner(F, a, b) /\ Apex(F, << a, b >>) = Apex(F, << b, a >>))
LinkOk(F, a, b) == Joined(F, a, b) /\ Common(F, a, b) = Opposite(F, a, b)

\* the triangles across the sides of t, one per side that has one
Across(F, t) == UNION { LeftOf(F, Rev(e)) : e \in Sides(t) }
Shared(t, u) == { e \in Sides(t) : Rev(e) \in Sides(u) }
=============================================================================
