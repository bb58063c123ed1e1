------------------------------ MODULE ConfSolid ------------------------------
(* Conformance of questions about points and rays against solids.            *)
EXTENDS Solid, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Same(a, b) == a[2] # 0 /\ b[2] # 0 /\ a[1] * b[2] = b[1] * a[2]
\* a point of a plane region's border may be told either way
PointErrs(c) == LET V == SetOf(c.V) IN
  UNION { LET w == Within(V, c.q[i]) IN When(w = c.r[i] \/ (c.dim = 2 /\ w = "on"), "point/" \o w) : i \in DOMAIN c.q }
\* ----------------------------------------------------------------- rays
Weights(m) == << m.n - m.u - m.v, m.u, m.v >>
Cells(t) == { i \in 1..3 : Weights(t[2])[i] # 0 }
\* the nearest triangles hit, as pairs of triangle and meeting
Nearest(o, d, T) ==
  LET H == TLCEval({ x \in { << t, Meet(o, d, t) >> : t \in T } : Hits(x[2]) })
  IN { x \in H : \A y \in H : x[2].t * y[2].n <= y[2].t * x[2].n }
\* c.el and c.w: the corners of the element hit and their weights
RayErrs(c) ==
  LET N == TLCEval(Nearest(c.o, c.d, SetOf(c.T)))
  IN IF c.hit = 0 THEN When(N = {}, "ray/missed")
     ELSE IF N = {} THEN {"ray/hit"}
     ELSE IF \E x \in N : ~Same(c.t, << x[2].t, x[2].n >>) THEN {"ray/distance"}
     ELSE When(\E x \in N : /\ Len(c.el) = Cardinality(Cells(x))
                           /\ \A i \in DOMAIN c.el : \E j \in Cells(x) : x[1][j] = c.el[i] /\ Same(c.w[i], << Weights(x[2])[j], x[2].n >>), "ray/element")
\* the ray from a corner a of a triangle a, b, c over the triangle, its direction laid into the plane
SpokeErrs(c) ==
  LET a == c.a[1]
      e == Vec(c.a[2], c.a[3])
      r == Vec(a, c.a[2])
      n == Cross(r, Vec(a, c.a[3]))
      det == Dot(Cross(c.d, e), n)
      t == Dot(Cross(r, e), n)
      u == Dot(Cross(r, c.d), n)
      Along(j) == LET f == Vec(a, c.a[j]) IN IF Dot(Cross(c.d, f), n) # 0 THEN 0 ELSE Dot(c.d, f)
      Ends(x, y) == Len(c.el) = 2 /\ c.el[1] = x /\ c.el[2] = y
  IN IF Dot(Cross(c.d, n), Cross(c.d, n)) = 0 THEN When(c.kind = "none", "perpendicular")
     ELSE IF \E j \in 2..3 : Along(j) > 0 THEN When(\E j \in 2..3 : Along(j) > 0 /\ c.kind = "along" /\ Ends(a, c.a[j]), "along")
     ELSE IF \E j \in 2..3 : Along(j) < 0 THEN When(c.kind = "none" \/ \E j \in 2..3 : Along(j) < 0 /\ c.kind = "along" /\ Ends(c.a[j], a), "back")
     ELSE IF det # 0 /\ (t > 0 <=> det > 0) /\ t # 0 /\ (IF det > 0 THEN u >= 0 /\ u <= det ELSE u <= 0 /\ u >= det)
          THEN When(c.kind = "edge" /\ Ends(c.a[2], c.a[3]) /\ Same(c.t, << t, det >>) /\ Same(c.u, << u, det >>), "edge")
     ELSE When(c.kind = "none", "outside")
\* ------------------------------------------------------ a ray and a segment in the plane
X2(u, v) == u[1] * v[2] - u[2] * v[1]
D2(u, v) == u[1] * v[1] + u[2] * v[2]
\* no answer for a ray without direction; on one line the first common point counts
SegErrs(c) ==
  LET q == Vec(c.o, c.a)
      s == Vec(c.a, c.b)
      n == X2(c.d, s)
      r == D2(c.d, c.d)
      Is(t, u) == When(c.hit = 1 /\ Same(c.t, t) /\ Same(c.u, u), "ray2/parameters")
      None == When(c.hit = 0, "ray2/hit")
      Sgn(x) == IF n < 0 THEN -x ELSE x
      t == Sgn(X2(q, s))
      u == Sgn(X2(q, c.d))
      m == Sgn(n)
      t0 == D2(q, c.d)
      t1 == D2(Vec(c.o, c.b), c.d)
  IN IF r = 0 THEN None
     ELSE IF n # 0 THEN IF t >= 0 /\ u >= 0 /\ u <= m THEN Is(<< t, m >>, << u, m >>) ELSE None
     ELSE IF X2(q, c.d) # 0 THEN None
     ELSE IF t0 < 0 /\ t1 < 0 THEN None
     ELSE IF t0 >= 0 /\ (t0 <= t1 \/ (t1 < 0 /\ t0 = 0)) THEN Is(<< t0, r >>, << 0, 1 >>)
     ELSE IF t1 >= 0 /\ t1 <= t0 THEN Is(<< t1, r >>, << 1, 1 >>)
     ELSE Is(<< 0, 1 >>, IF t0 <= 0 THEN << -t0, t1 - t0 >> ELSE << t0, t0 - t1 >>)
Errs(c) ==
  IF c.fail # << >> THEN { "fail/" \o c.k }
  ELSE CASE c.k = "pim" -> PointErrs(c)
         [] c.k = "ray" -> RayErrs(c)
         [] c.k = "spoke" -> { c.f \o "/" \o e : e \in SpokeErrs(c) }
         [] c.k = "ray2" -> SegErrs(c)
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
