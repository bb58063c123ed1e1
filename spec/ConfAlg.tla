------------------------------ MODULE ConfAlg ------------------------------
(* Conformance of vectors, matrices, planes and segments.  Results come as  *)
(* fractions in lattice units.                                              *)
EXTENDS Algebra, Json, IOUtils, TLC
When(c, n) == IF c THEN {} ELSE {n}
\* the fraction r is n / d
Is(r, n, d) == r[2] > 0 /\ r[1] * d = n * r[2]
IsInt(r, n) == r[2] = 1 /\ r[1] = n
AreInts(r, v) == Len(r) = Len(v) /\ \A i \in DOMAIN v : IsInt(r[i], v[i])
Are(r, v, d) == Len(r) = Len(v) /\ \A i \in DOMAIN v : Is(r[i], v[i], d)
MatInts(r, A) == Len(r) = Len(A) /\ \A i \in DOMAIN A : AreInts(r[i], A[i])
Whole(r) == \A i \in DOMAIN r : r[i][2] = 1
Nums(r) == [i \in 1..Len(r) |-> r[i][1]]
\* ------------------------------------------------------------------ vectors
VecErrs(c) ==
  LET a == c.a
      b == c.b
      u == c.u
      n == Len(a)
  IN When(AreInts(c.add, AddV(a, b)), "add") \cup When(AreInts(c.sub, SubV(a, b)), "sub")
     \cup When(AreInts(c.neg, ScaleV(-1, a)), "neg") \cup When(IsInt(c.dot, Inner(a, b)), "dot")
     \cup When(IsInt(c.norm, Inner(a, a)), "norm") \cup When(Are(c.scale, ScaleV(u[1], a), u[2]), "scale")
     \cup When(Are(c.axpy, AddV(ScaleV(u[2], a), ScaleV(u[1], b)), u[2]), "axpy")
     \cup When(c.lerp = << >> \/ Are(c.lerp, AddV(ScaleV(u[2] - u[1], a), ScaleV(u[1], b)), u[2]), "lerp")
     \cup When(CASE n = 2 -> AreInts(c.cross, << Det2(a[1], a[2], b[1], b[2]) >>) [] n = 3 -> AreInts(c.cross, Outer3(a, b)) [] OTHER -> TRUE, "cross")
     \cup When(c.perp = << >> \/ IsZeroV(a) \/
               LET w == Nums(c.perp) IN
               IF n = 3 THEN Whole(c.perp) /\ ~IsZeroV(w) /\ Inner(w, a) = 0
               ELSE \* fractions over the square of the length
                    LET q == Inner(a, a)
                        s == [i \in 1..n |-> c.perp[i][1] * (q \div c.perp[i][2])]
                    IN (\A i \in 1..n : c.perp[i][2] > 0 /\ q % c.perp[i][2] = 0) /\ ~IsZeroV(s) /\ Inner(s, a) = 0, "perpendicular")
     \cup When(c.cmp = Lex(a, b), "order") \cup When(c.eq = (a = b) /\ (a = b => c.same), "equal")
     \cup When(c.zero = IsZeroV(a), "zero")
\* ----------------------------------------------------------------- matrices
\* common denominator d: fractions that are d-ths
Ths(r, d) == \A i \in DOMAIN r : \A j \in DOMAIN r[i] : r[i][j][2] > 0 /\ d % r[i][j][2] = 0
Times(r, d) == [i \in 1..Len(r) |-> [j \in 1..Len(r[i]) |-> r[i][j][1] * (d \div r[i][j][2])]]
RECURSIVE Flat(_, _)
Flat(A, k) == IF k = 0 THEN << >> ELSE Flat(A, k - 1) \o A[k]
MatErrs(c) ==
  LET A == c.A
      B == c.B
      d == Det(A)
      e == IF d < 0 THEN 0 - d ELSE d
      sg == IF d < 0 THEN -1 ELSE 1
  IN When(MatInts(c.add, AddM(A, B)), "add") \cup When(MatInts(c.sub, SubM(A, B)), "sub") \cup When(MatInts(c.neg, ScaleM(-1, A)), "neg")
     \cup When(MatInts(c.mul, MatMul(A, B)), "product") \cup When(AreInts(c.mv, MatVec(A, c.v)), "apply")
     \cup When(MatInts(c.flip, Flip(A)), "transpose") \cup When(MatInts(c.cols, Flip(A)), "columns") \cup When(MatInts(c.rows, A), "rows")
     \cup When(MatInts(c.fromcols, A), "from-columns") \cup When(MatInts(c.outer, OuterM(c.v, A[1])), "outer")
     \cup When(MatInts(c.id, Unit(Len(A))), "identity") \cup When(IsInt(c.det, d), "determinant")
     \cup When(MatInts(c.half, AddM(A, B)), "lerp")
     \cup When(Len(A) = 4 \/ (IF d = 0 THEN c.inv = << >>
                             ELSE c.inv # << >> /\ Ths(c.inv, e) /\ Inverts(A, ScaleM(sg, Times(c.inv, e)), d)), "inverse")
     \cup When(c.cmp = Lex(Flat(A, Len(A)), Flat(B, Len(A))), "order") \cup When(c.eq = (A = B), "equal")
RectErrs(c) == When(MatInts(c.mul, MatMul(c.A, c.B)), "product") \cup When(MatInts(c.flip, Flip(c.A)), "transpose") \cup When(AreInts(c.mv, MatVec(c.A, c.v)), "apply")
\* ------------------------------------------------------------------- planes
PlaneErrs(c) ==
  LET P == c.p
      k == Len(P)
      n == IF k = 3 THEN Outer3(SubV(P[2], P[1]), SubV(P[3], P[1])) ELSE LET x == SubV(P[2], P[1]) IN << 0 - x[2], x[1] >>
      d == 0 - Inner(n, P[1])
      l == Lead(n)
  IN When(AreInts(c.n, n) /\ IsInt(c.d, d), "through")
     \cup IF IsZeroV(n) THEN {}
          ELSE LET o == c.origin
                   q == IF n[l] < 0 THEN 0 - n[l] ELSE n[l]
               IN When(\A i \in 1..k : o[i][2] > 0, "origin")
                  \cup When(LET s == ProdSeq([i \in 1..k |-> IF o[i][1] = 0 THEN 1 ELSE o[i][2]], k)
                            IN Inner(n, [i \in 1..k |-> o[i][1] * (s \div o[i][2])]) + d * s = 0, "origin")
                  \cup When(Whole(c.u) /\ Whole(c.v) /\
                            LET u == Nums(c.u)
                                v == Nums(c.v)
                            IN IF k = 3 THEN Inner(u, n) = 0 /\ Inner(v, n) = 0 /\ Inner(Outer3(u, v), n) > 0
                               ELSE Inner(u, n) = 0 /\ ~IsZeroV(u), "basis")
                  \cup When(Are(c.cn, ScaleV(IF n[l] < 0 THEN -1 ELSE 1, n), q) /\ Is(c.cd, IF n[l] < 0 THEN 0 - d ELSE d, q), "canonical")
                  \cup When(c.other = << >> \/ LET m == c.other.n IN IsZeroV(m) \/ (c.other.eq = SamePlane(n, d, m, c.other.d) /\ c.other.hash), "same-plane")
\* ----------------------------------------------------------------- segments
SegErrs(c) ==
  LET a == c.a
      b == c.b
      p == c.p
      e == SubV(b, a)
      w == SubV(p, a)
      l == Inner(e, e)
      t == Inner(w, e)
      on == ScaleV(l, w) = ScaleV(t, e) /\ (IF l = 0 THEN p = a ELSE t >= 0 /\ t <= l)
  IN When(IsInt(c.len, l), "length") \cup When(Are(c.mid, AddV(a, b), 2) /\ Are(c.mid2, AddV(a, b), 2), "midpoint")
     \cup When(IF l = 0 THEN IsInt(c.t, 0) ELSE Is(c.t, t, l), "parameter") \cup When(c.on = on, "on")
     \cup When(AreInts(c.dir, e) /\ AreInts(c.to, e) /\ AreInts(c.inv, a) /\ AreInts(c.plus, b), "direction")
     \cup When((\A k \in DOMAIN c.less : AreInts(c.less[k], e)) /\ AreInts(c.as, a), "difference")
     \cup When(LET f == IF Lex(a, b) < 0 THEN << a, b >> ELSE << b, a >>
                   tt == Inner(SubV(p, f[1]), SubV(f[2], f[1]))
               IN AreInts(c.edge[1], f[1]) /\ AreInts(c.edge[2], f[2]) /\ c.edgesame /\ (IF l = 0 THEN IsInt(c.edget, 0) ELSE Is(c.edget, tt, l)), "canonical-edge")
\* -------------------------------------------------------------- barycentric
BaryErrs(c) ==
  LET a == c.a
      x == SubV(c.b, a)
      y == SubV(c.c, a)
      den == Inner(x, x) * Inner(y, y) - Inner(x, y) * Inner(x, y)
      r == c.w
      w == [i \in 1..3 |-> r[i][1] * (den \div r[i][2])]
      \* what is left of the point off the plane, times den
      rest == SubV(ScaleV(den, SubV(c.p, a)), AddV(ScaleV(w[2], x), ScaleV(w[3], y)))
  IN IF den = 0 THEN When(r = << >>, "flat")
     ELSE When(Len(r) = 3 /\ (\A i \in 1..3 : r[i][2] > 0 /\ den % r[i][2] = 0) /\ w[1] + w[2] + w[3] = den /\ Inner(rest, x) = 0 /\ Inner(rest, y) = 0, "weights")
Errs(c) ==
  IF c.fail # << >> THEN {"fail/" \o c.k}
  ELSE { x \o "/" \o c.k : x \in
    CASE c.k = "vec" -> VecErrs(c) [] c.k = "mat" -> MatErrs(c) [] c.k = "rect" -> RectErrs(c)
      [] c.k = "plane" -> PlaneErrs(c) [] c.k = "seg" -> SegErrs(c) [] c.k = "bary" -> BaryErrs(c) }
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
