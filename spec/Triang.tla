------------------------------- MODULE Triang -------------------------------
(***************************************************************************)
(* Triangulations of points in the plane.  p is a sequence of points, not   *)
(* all of them different; T is a set of triangles, triples of indices; K is *)
(* a set of constraints, pairs of indices.                                  *)
(***************************************************************************)
EXTENDS Geom
Spots(p) == { p[i] : i \in DOMAIN p }
Flat(p) == \A i, j, k \in DOMAIN p : Orient2(p[i], p[j], p[k]) = 0
TSides(t) == { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> }
TCorners(t) == { t[1], t[2], t[3] }
TDir(T) == UNION { TSides(t) : t \in T }
TUsed(T) == UNION { TCorners(t) : t \in T }
Area2(p, t) == Orient2(p[t[1]], p[t[2]], p[t[3]])
Ccw(p, T) == \A t \in T : TCorners(t) \subseteq DOMAIN p /\ Area2(p, t) > 0
\* triangles meet along whole edges
Matched(T) == Cardinality(TDir(T)) = 3 * Cardinality(T)
Outer(T) == LET D == TDir(T) IN { e \in D : << e[2], e[1] >> \notin D }
\* an outer edge has every point to its left or at its ends or beyond them
OnHull(p, e) == \A i \in DOMAIN p : LET o == Orient2(p[e[1]], p[e[2]], p[i])
                                    IN o > 0 \/ (o = 0 /\ (p[i] \in { p[e[1]], p[e[2]] } \/ ~OnSegment(p[i], p[e[1]], p[e[2]])))
Hulled(p, T) == \A e \in Outer(T) : OnHull(p, e)
\* every point is a corner, under one of its names
Complete(p, T) == LET U == TUsed(T) IN { p[i] : i \in U } = Spots(p) /\ Cardinality(U) = Cardinality(Spots(p))
\* nothing is covered twice: the areas add up to that of the hull, which the outer edges enclose
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Total(p, T) == SumOver([t \in T |-> Area2(p, t)], T)
Enclosed(p, E) == SumOver([e \in E |-> Cross2(p[e[1]], p[e[2]])], E)
Lowest(p) == CHOOSE q \in Spots(p) : \A r \in Spots(p) : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] <= r[1])
\* the hull as the set of its directed edges between corners
HullEdges(p) == { e \in Spots(p) \X Spots(p) : e[1] # e[2] /\ \A q \in Spots(p) : LET o == Orient2(e[1], e[2], q) IN o > 0 \/ (o = 0 /\ OnSegment(q, e[1], e[2])) }
HullArea(p) == LET H == HullEdges(p) IN SumOver([e \in H |-> Cross2(e[1], e[2])], H)
Covers(p, T) == Total(p, T) = HullArea(p)

Faults(p, T) ==
  IF Flat(p) THEN (IF T = {} THEN {} ELSE {"flat"})
  ELSE IF ~Ccw(p, T) THEN {"orientation"}
  ELSE (IF Matched(T) THEN {} ELSE {"edges"}) \cup (IF Complete(p, T) THEN {} ELSE {"points"})
       \cup (IF Hulled(p, T) THEN {} ELSE {"hull"}) \cup (IF Covers(p, T) THEN {} ELSE {"cover"})
Valid(p, T) == Faults(p, T) = {}
\* no point inside the circle of a triangle
Delaunay(p, T) == \A t \in T : \A q \in Spots(p) : InCircle(p[t[1]], p[t[2]], p[t[3]], q) <= 0

\* ------------------------------------------------------------- constraints
Crossing(a, b, c, d) == /\ Orient2(a, b, c) * Orient2(a, b, d) < 0
                        /\ Orient2(c, d, a) * Orient2(c, d, b) < 0
Clear(p, K) == \A x, y \in K : ~Crossing(p[x[1]], p[x[2]], p[y[1]], p[y[2]])
\* the segment of a constraint is made up of edges: consecutive points on it are joined
Between(p, a, b) == { q \in Spots(p) : OnSegment(q, a, b) }
Nexts(p, a, b) == { e \in Between(p, a, b) \X Between(p, a, b) :
                      e[1] # e[2] /\ Dot(Minus(e[2], e[1]), Minus(b, a)) > 0
                      /\ \A q \in Between(p, a, b) : q \in { e[1], e[2] } \/ ~OnSegment(q, e[1], e[2]) }
Joined(p, T, a, b) == LET D == { << p[e[1]], p[e[2]] >> : e \in TDir(T) }
                      IN \A e \in Nexts(p, a, b) : e \in D \/ << e[2], e[1] >> \in D
Respects(p, T, K) == \A x \in K : Joined(p, T, p[x[1]], p[x[2]])

\* ----------------------------------------------------------------- flipping
\* the triangulations one exchange of a diagonal away
TCanon(t) == IF t[1] <= t[2] /\ t[1] <= t[3] THEN t ELSE IF t[2] <= t[1] /\ t[2] <= t[3] THEN << t[2], t[3], t[1] >> ELSE << t[3], t[1], t[2] >>
Apexes(T, e) == { CHOOSE x \in TCorners(t) : x \notin { e[1], e[2] } : t \in { s \in T : e \in TSides(s) } }
FlipTo(p, T, e) ==
  UNION { UNION { IF Orient2(p[c], p[d], p[e[2]]) > 0 /\ Orient2(p[d], p[c], p[e[1]]) > 0
                  THEN { (T \ { TCanon(<< e[1], e[2], c >>), TCanon(<< e[2], e[1], d >>) })
                         \cup { TCanon(<< c, d, e[2] >>), TCanon(<< d, c, e[1] >>) } }
                  ELSE {} : d \in Apexes(T, << e[2], e[1] >>) } : c \in Apexes(T, e) }
=============================================================================
