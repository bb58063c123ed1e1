------------------------------ MODULE ConfBool ------------------------------
(* Conformance of union, intersection and difference.  The result must close, *)
(* hold the right content, and go once around every filled box and around no  *)
(* other.                                                                     *)
EXTENDS Bool, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Steps(c) == TLCEval([k \in DOMAIN c.st |-> [op |-> c.st[k].op, V |-> SetOf(c.st[k].V), s |-> c.st[k].s]])
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* ---------------------------------------------------------------- surfaces
\* six times the volume inside the triangles
Enclosed(F) == SumTo(LAMBDA i : Dot(F[i][1], Cross(F[i][2], F[i][3])), Len(F))
\* every edge is run through as often one way as the other
Closed(F) ==
  LET E == TLCEval({ << F[i][j], F[i][(j % 3) + 1], i >> : i \in DOMAIN F, j \in 1..3 })
      R == TLCEval({ << e[1], e[2] >> : e \in E })
      N == TLCEval([r \in R |-> Cardinality({ i \in DOMAIN F : << r[1], r[2], i >> \in E })])
  IN \A r \in R : << r[2], r[1] >> \in R /\ N[r] = N[<< r[2], r[1] >>]
Double(p) == << 2 * p[1], 2 * p[2], 2 * p[3] >>
Finer(p, k) == << k * p[1], k * p[2], k * p[3] >>
Ways == << << 89, 7, 3 >>, << -5, 97, 11 >>, << 3, -13, 101 >>, << 61, 67, 71 >>, << -53, 31, 17 >> >>
\* how often the triangles go around o: crossings outward less crossings inward; << >> when no ray tells
RECURSIVE Winding(_, _, _)
Winding(o, T, k) ==
  IF k > Len(Ways) THEN << >>
  ELSE LET d == Ways[k]
           N == TLCEval([i \in DOMAIN T |-> LET m == Meet(o, d, T[i]) IN IF ~Hits(m) THEN 0 ELSE IF Inner(m) THEN Sgn(Dot(d, Cross(Arrow(T[i][1], T[i][2]), Arrow(T[i][1], T[i][3])))) ELSE 9])
       IN IF \E i \in DOMAIN N : N[i] = 9 THEN Winding(o, T, k + 1) ELSE << SumTo(LAMBDA i : N[i], Len(T)) >>
SpaceErrs(c, st, G) ==
  LET k == c.D \div 2
      T == TLCEval([i \in DOMAIN c.F |-> << Double(c.F[i][1]), Double(c.F[i][2]), Double(c.F[i][3]) >>])
  IN When(Closed(c.F), "closed")
     \cup When(Enclosed(c.F) = 6 * k * k * k * Content(st, G, TLCEval(Widths(st, G))), "volume")
     \cup When(\A q \in Tuples(G, 1) : LET w == Winding(Finer(q, k), T, 1) IN w = << >> \/ w = << IF Filled(st, q) THEN 1 ELSE 0 >>, "inside")
\* ---------------------------------------------------------------- judging
\* corners of the result are lattice points or half way between two, but faces cut before may meet anywhere;
\* an operand, cut where the surfaces meet, bounds what it did before
Errs(c) ==
  LET st == Steps(c)
      G == TLCEval(Grid(st))
      op == IF c.k = "operand" THEN c.k ELSE st[Len(st)].op
  IN IF c.fail # << >> THEN { op \o "/fail" }
     ELSE { op \o "/" \o x : x \in When(c.D = 2 \/ Len(st) > 2 \/ c.k = "operand", "vertex") \cup IF c.D = 0 THEN {} ELSE SpaceErrs(c, st, G) }
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
