-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact geometry on the integer lattice.  This is the oracle layer of the *)
(* specification: every predicate and construction of the library is given *)
(* here by its mathematical meaning, in exact integer arithmetic, without   *)
(* following the way the library computes it.                              *)
(* Points are integer tuples of length 2 or 3.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Min2(x, y) == IF x <= y THEN x ELSE y
Max2(x, y) == IF x >= y THEN x ELSE y

\* ------------------------------------------------------------- vectors
Dim(p) == Len(p)
Minus(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
Plus(p, q)  == [i \in 1..Len(p) |-> p[i] + q[i]]
Dot(u, v) == IF Len(u) = 2 THEN u[1]*v[1] + u[2]*v[2]
                           ELSE u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
Cross2(u, v) == u[1]*v[2] - u[2]*v[1]
Cross3(u, v) == << u[2]*v[3] - u[3]*v[2],
                   u[3]*v[1] - u[1]*v[3],
                   u[1]*v[2] - u[2]*v[1] >>
IsZeroVec(u) == \A i \in 1..Len(u) : u[i] = 0
Parallel(u, v) == IF Len(u) = 2 THEN Cross2(u, v) = 0 ELSE IsZeroVec(Cross3(u, v))

\* --------------------------------------------------------- orientation
Orient2(a, b, c) == Cross2(Minus(b, a), Minus(c, a))
Orient3(a, b, c, d) == Dot(Cross3(Minus(b, a), Minus(c, a)), Minus(d, a))

Collinear(a, b, c) == Parallel(Minus(b, a), Minus(c, a))
Coplanar(a, b, c, d) == Orient3(a, b, c, d) = 0

\* d strictly inside (+), on (0) or outside (-) the circle through ccw a, b, c
InCircle(a, b, c, d) ==
  LET u == Minus(a, d)
      v == Minus(b, d)
      w == Minus(c, d)
      n(x) == Dot(x, x)
  IN  u[1] * (v[2]*n(w) - n(v)*w[2])
    - u[2] * (v[1]*n(w) - n(v)*w[1])
    + n(u) * (v[1]*w[2] - v[2]*w[1])

\* ------------------------------------------------- points and segments
OnLine(p, a, b) == Collinear(a, b, p)
OnSegment(p, a, b) == OnLine(p, a, b) /\ Dot(Minus(a, p), Minus(b, p)) <= 0
\* parameter of p along a->b as <<numerator, denominator>>, denominator > 0
ParamOn(p, a, b) == << Dot(Minus(p, a), Minus(b, a)), Dot(Minus(b, a), Minus(b, a)) >>
\* the same parameter, offered for points within sqrt(n/d) of the segment
NearParam(p, a, b, n, d) ==
  LET l == Minus(b, a)
      v == Minus(p, a)
      t == Dot(v, l)
      ll == Dot(l, l)
      near == IF t < 0 THEN d * Dot(v, v) <= n
              ELSE IF t > ll THEN d * Dot(Minus(p, b), Minus(p, b)) <= n
              ELSE d * (Dot(v, v) * ll - t * t) <= n * ll
  IN IF near THEN <<t, ll>> ELSE << >>
Degenerate(a, b, c) == Collinear(a, b, c)

\* ------------------------------------------------------ point in triangle
Classify(e0, e1, e2) ==
  IF (e0 < 0 \/ e1 < 0 \/ e2 < 0) /\ (e0 > 0 \/ e1 > 0 \/ e2 > 0) THEN "Off"
  ELSE LET z == Cardinality({i \in 1..3 : <<e0, e1, e2>>[i] = 0})
       IN IF z >= 2 THEN "OnVertex" ELSE IF z = 1 THEN "OnEdge" ELSE "In"

\* Position of p relative to the closed triangle abc, said without edge functions:
\* the vertices, then the open edges, then the open interior.
InTri2(p, a, b, c) ==
  IF Orient2(a, b, c) = 0 THEN "Off"
  ELSE IF p = a \/ p = b \/ p = c THEN "OnVertex"
  ELSE IF OnSegment(p, a, b) \/ OnSegment(p, b, c) \/ OnSegment(p, c, a) THEN "OnEdge"
  ELSE LET s == Sgn(Orient2(a, b, c))
       IN IF /\ Sgn(Orient2(a, b, p)) = s
             /\ Sgn(Orient2(b, c, p)) = s
             /\ Sgn(Orient2(c, a, p)) = s
          THEN "In" ELSE "Off"

\* the same for a point in the plane of a triangle in space
InTri3(p, a, b, c) ==
  LET n == Cross3(Minus(b, a), Minus(c, a))
      e(u, v) == Sgn(Dot(Cross3(Minus(v, u), Minus(p, u)), n))
  IN IF IsZeroVec(n) THEN "Off"
     ELSE IF Dot(n, Minus(p, a)) # 0 THEN "Off"
     ELSE IF p = a \/ p = b \/ p = c THEN "OnVertex"
     ELSE IF OnSegment(p, a, b) \/ OnSegment(p, b, c) \/ OnSegment(p, c, a) THEN "OnEdge"
     ELSE IF e(a, b) > 0 /\ e(b, c) > 0 /\ e(c, a) > 0 THEN "In" ELSE "Off"

\* ------------------------------------------------------------ rationals
\* <<n, d>> with d > 0; equality is by cross multiplication
RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Gcd(a, b) == GcdR(Abs(a), Abs(b))
Rat(n, d) == LET g == Gcd(n, d)
                 s == IF d < 0 THEN -1 ELSE 1
             IN IF n = 0 THEN <<0, 1>> ELSE << s * (n \div g), (s * d) \div g >>
\* Java-style div of negatives is avoided: \div floors, and g divides exactly
REq(x, y) == x = y
RInt(n) == <<n, 1>>
RAdd(x, y) == Rat(x[1]*y[2] + y[1]*x[2], x[2]*y[2])
RSub(x, y) == Rat(x[1]*y[2] - y[1]*x[2], x[2]*y[2])
RMul(x, y) == Rat(x[1]*y[1], x[2]*y[2])
RDiv(x, y) == Rat(x[1]*y[2], x[2]*y[1])
RLt(x, y) == x[1]*y[2] < y[1]*x[2]
RLe(x, y) == x[1]*y[2] <= y[1]*x[2]
RSgn(x) == Sgn(x[1])
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RPt(p) == [i \in 1..Len(p) |-> RInt(p[i])]
\* a + (n/d) (b - a)
Lerp(a, b, n, d) == [i \in 1..Len(a) |-> Rat(a[i]*d + n*(b[i] - a[i]), d)]
RECURSIVE LexLt(_, _, _)
LexLt(p, q, i) == IF i > Len(p) THEN FALSE
                  ELSE IF p[i] = q[i] THEN LexLt(p, q, i + 1) ELSE RLt(p[i], q[i])
=============================================================================
