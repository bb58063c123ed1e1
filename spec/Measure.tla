------------------------------- MODULE Measure -------------------------------
(***************************************************************************)
(* What the geometry of a face or an edge of a mesh is: a function of the  *)
(* places its corners have now.  p is the sequence of places, t a triangle *)
(* of vertex names, e a directed edge.                                     *)
(***************************************************************************)
EXTENDS Mesh, Wide
\* NormalOf(a, b, c), from Mesh, is the cross product of two sides
Normal(p, t) == NormalOf(p[t[1]], p[t[2]], p[t[3]])
WDot(a, b) == IF Len(a) = 2 THEN WAdd(WMul(WOf(a[1]), WOf(b[1])), WMul(WOf(a[2]), WOf(b[2])))
              ELSE WAdd(WAdd(WMul(WOf(a[1]), WOf(b[1])), WMul(WOf(a[2]), WOf(b[2]))), WMul(WOf(a[3]), WOf(b[3])))
\* the square of twice the area
Square(p, t) == LET n == Normal(p, t) IN WDot(n, n)
Twice2(p, t) == LET u == Vec(p[t[1]], p[t[2]])
                    v == Vec(p[t[1]], p[t[3]])
                    d == u[1] * v[2] - u[2] * v[1]
                IN IF d < 0 THEN -d ELSE d
\* three times the centroid
Thrice(p, t) == [i \in DOMAIN p[t[1]] |-> p[t[1]][i] + p[t[2]][i] + p[t[3]][i]]
Least(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c
Most(a, b, c) == IF a >= b /\ a >= c THEN a ELSE IF b >= c THEN b ELSE c
Low(p, t) == [i \in DOMAIN p[t[1]] |-> Least(p[t[1]][i], p[t[2]][i], p[t[3]][i])]
High(p, t) == [i \in DOMAIN p[t[1]] |-> Most(p[t[1]][i], p[t[2]][i], p[t[3]][i])]

Line(u, v) == IF Len(u) = 2 THEN Flat2(u, v) ELSE Collinear3(u, v)
\* a point on the closed segment from a to b
OnEdge(a, b, q) == LET u == Vec(a, b)
                       v == Vec(a, q)
                   IN Line(u, v) /\ \A i \in DOMAIN a : Least(a[i], b[i], b[i]) <= q[i] /\ q[i] <= Most(a[i], b[i], b[i])
\* r = << n, d >> is how far along it is
Along(a, b, q, r) == r[2] > 0 /\ \A i \in DOMAIN a : WMul(WOf(r[1]), WOf(b[i] - a[i])) = WMul(WOf(r[2]), WOf(q[i] - a[i]))
\* w is a positive multiple of n
SameWay(w, n) == /\ WSgn(WDot(w, n)) > 0
                 /\ WDet2(WOf(w[1]), WOf(w[2]), WOf(n[1]), WOf(n[2])) = << >>
                 /\ WDet2(WOf(w[2]), WOf(w[3]), WOf(n[2]), WOf(n[3])) = << >>
                 /\ WDet2(WOf(w[1]), WOf(w[3]), WOf(n[1]), WOf(n[3])) = << >>
Moved(p, v, q) == [p EXCEPT ![v] = q]
=============================================================================
