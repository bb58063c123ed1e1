------------------------------- MODULE Isect -------------------------------
(***************************************************************************)
(* Intersections of segments and triangles, exactly.  Results are rational *)
(* points (tuples of normalised <<n, d>>), so two results are equal iff    *)
(* they are the same point.                                                *)
(***************************************************************************)
EXTENDS Geom

None == [k |-> "N", pts |-> {}]
OnePt(x) == [k |-> "P", pts |-> {x}]
TwoPts(x, y) == [k |-> "S", pts |-> {x, y}]

\* ---------------------------------------------------------- two segments
RECURSIVE ILexLt(_, _, _)
ILexLt(p, q, i) == IF i > Len(p) THEN FALSE
                   ELSE IF p[i] = q[i] THEN ILexLt(p, q, i + 1) ELSE p[i] < q[i]
LexMin(p, q) == IF ILexLt(q, p, 1) THEN q ELSE p
LexMax(p, q) == IF ILexLt(p, q, 1) THEN q ELSE p

\* shared set of the closed segments ab and cd (a # b, c # d), in 2 or 3 dimensions
SegSeg(a, b, c, d) ==
  LET u == Minus(b, a)
      v == Minus(d, c)
      w == Minus(c, a)
  IN IF Parallel(u, v)
     THEN IF ~Collinear(a, b, c) THEN None
          ELSE LET lo == LexMax(LexMin(a, b), LexMin(c, d))
                   hi == LexMin(LexMax(a, b), LexMax(c, d))
               IN IF lo = hi THEN OnePt(RPt(lo))
                  ELSE IF ILexLt(lo, hi, 1) THEN TwoPts(RPt(lo), RPt(hi)) ELSE None
     ELSE IF Len(a) = 2
     THEN LET den == Cross2(u, v)
              s == Sgn(den)
              t == s * Cross2(w, v)
              r == s * Cross2(w, u)
              dd == s * den
          IN IF t < 0 \/ t > dd \/ r < 0 \/ r > dd THEN None ELSE OnePt(Lerp(a, b, t, dd))
     ELSE LET n == Cross3(u, v)
              dd == Dot(n, n)
              t == Dot(Cross3(w, v), n)
              r == Dot(Cross3(w, u), n)
          IN IF Dot(w, n) # 0 \/ t < 0 \/ t > dd \/ r < 0 \/ r > dd THEN None
             ELSE OnePt(Lerp(a, b, t, dd))

\* ------------------------------------------------ homogeneous coordinates
\* <<X, Y, Z, W>> with W > 0: keeps determinants of rational points small
Lcm(a, b) == (a \div Gcd(a, b)) * b
Hom(x) == LET w == Lcm(Lcm(x[1][2], x[2][2]), x[3][2])
          IN << x[1][1] * (w \div x[1][2]), x[2][1] * (w \div x[2][2]), x[3][1] * (w \div x[3][2]), w >>
\* axes kept when projecting along an axis the normal is not orthogonal to
Axes(n) == IF n[3] # 0 THEN <<1, 2>> ELSE IF n[2] # 0 THEN <<1, 3>> ELSE <<2, 3>>
HDet(a, b, c, ax) ==
  LET i == ax[1]
      j == ax[2]
  IN a[i] * (b[j]*c[4] - c[j]*b[4]) - a[j] * (b[i]*c[4] - c[i]*b[4]) + a[4] * (b[i]*c[j] - c[i]*b[j])
HInt(p) == << p[1], p[2], p[3], 1 >>

TriNormal(t) == Cross3(Minus(t[2], t[1]), Minus(t[3], t[1]))
TriEdges(t) == { <<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>> }

\* barycentric numerators of a rational point in the plane of t (projected), over HTri * W
Bary(x, t) ==
  LET ax == Axes(TriNormal(t))
      h == Hom(x)
      d == HDet(HInt(t[1]), HInt(t[2]), HInt(t[3]), ax)
      s == Sgn(d)
  IN [ n |-> << s * HDet(h, HInt(t[2]), HInt(t[3]), ax),
               s * HDet(HInt(t[1]), h, HInt(t[3]), ax),
               s * HDet(HInt(t[1]), HInt(t[2]), h, ax) >>,
       d |-> s * d * h[4] ]
InClosedTri(x, t) == LET b == Bary(x, t) IN \A i \in 1..3 : b.n[i] >= 0

\* ends of the shared set of the closed segment ab and the closed triangle t
SegTri(a, b, t) ==
  LET n == TriNormal(t)
      da == Dot(n, Minus(a, t[1]))
      db == Dot(n, Minus(b, t[1]))
      den == Abs(da - db)
      num == Abs(da)
      x == Lerp(a, b, num, den)
  IN IF Sgn(da) * Sgn(db) > 0 THEN {}
     ELSE IF da = 0 /\ db = 0
     THEN { RPt(y) : y \in {z \in {a, b} : InTri3(z, t[1], t[2], t[3]) # "Off"} }
          \cup UNION { SegSeg(a, b, e[1], e[2]).pts : e \in TriEdges(t) }
     ELSE IF InClosedTri(x, t) THEN {x} ELSE {}

\* ----------------------------------------------------------- two triangles
CoplanarTris(p, q) == LET n == TriNormal(p) IN \A i \in 1..3 : Dot(n, Minus(q[i], p[1])) = 0

\* Corner points of the shared set.  For triangles in different planes these lie on one
\* line and only the two outermost matter; for triangles in one plane every one of them
\* is a corner of the shared convex polygon.
Corners(p, q) ==
  UNION ({ SegTri(e[1], e[2], q) : e \in TriEdges(p) } \cup { SegTri(e[1], e[2], p) : e \in TriEdges(q) })

Outermost(s) == { x \in s : \/ \A y \in s : y = x \/ LexLt(x, y, 1)
                            \/ \A y \in s : y = x \/ LexLt(y, x, 1) }

TriTri(p, q) ==
  LET c == Corners(p, q)
      e == IF CoplanarTris(p, q) THEN c ELSE Outermost(c)
      n == Cardinality(e)
  IN [ k |-> IF n = 0 THEN "N" ELSE IF n = 1 THEN "P" ELSE IF n = 2 THEN "S" ELSE "G", pts |-> e ]

\* the sequence of segments sg is the boundary cycle of the convex polygon with corners pts
IsBoundary(sg, pts, ax) ==
  /\ Len(sg) = Cardinality(pts)
  /\ { sg[i][1] : i \in DOMAIN sg } = pts
  /\ { sg[i][2] : i \in DOMAIN sg } = pts
  /\ \A i \in DOMAIN sg : sg[i][1] # sg[i][2] /\
       LET a == Hom(sg[i][1])
           b == Hom(sg[i][2])
           sd == { Sgn(HDet(a, b, Hom(z), ax)) : z \in pts \ {sg[i][1], sg[i][2]} }
       IN Cardinality(sd) = 1 /\ 0 \notin sd

\* where x sits on triangle t: a corner, an open side (with its two corners), or inside
Place(x, t) ==
  LET b == Bary(x, t)
      z == { i \in 1..3 : b.n[i] = 0 }
  IN IF \E i \in 1..3 : b.n[i] < 0 THEN [k |-> "off", at |-> {}]
     ELSE IF Cardinality(z) = 2 THEN [k |-> "V", at |-> (1..3) \ z]
     ELSE IF Cardinality(z) = 1 THEN [k |-> "E", at |-> (1..3) \ z]
     ELSE [k |-> "I", at |-> {1, 2, 3}]
BaryRat(x, t) == LET b == Bary(x, t) IN << Rat(b.n[1], b.d), Rat(b.n[2], b.d), Rat(b.n[3], b.d) >>
RLerp(a, b, u) == [i \in 1..Len(a) |-> RAdd(RInt(a[i]), RMul(u, RInt(b[i] - a[i])))]

\* ------------------------------------------------------------ convex hull
\* corners of the hull of a sequence of lattice points, not all collinear
HullCorners(ps) ==
  LET s == { ps[i] : i \in DOMAIN ps }
  IN { x \in s : ~\E a, b \in s \ {x} : OnSegment(x, a, b)
                 } \ { x \in s : \E a, b, c \in s \ {x} : Orient2(a, b, c) # 0 /\ InTri2(x, a, b, c) = "In" }
AllCollinear(ps) == \A i, j, k \in DOMAIN ps : Collinear(ps[i], ps[j], ps[k])
IsHullCycle(idx, ps) ==
  LET n == Len(idx)
      c == [i \in 1..n |-> ps[idx[i]]]
  IN /\ { c[i] : i \in 1..n } = HullCorners(ps)
     /\ n = Cardinality(HullCorners(ps))
     /\ \A i \in 1..n : LET a == c[i]
                            b == c[(i % n) + 1]
                        IN \A k \in DOMAIN ps : Orient2(a, b, ps[k]) >= 0
=============================================================================
