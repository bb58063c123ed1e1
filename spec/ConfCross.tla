------------------------------ MODULE ConfCross -----------------------------
(* Conformance of where two surfaces meet: what is reported lies on both, the *)
(* lines along which they meet are covered, and the end points describe       *)
(* themselves truthfully.                                                     *)
EXTENDS Cross, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Steps(c) == TLCEval([k \in DOMAIN c.st |-> [op |-> c.st[k].op, V |-> SetOf(c.st[k].V), s |-> c.st[k].s]])
Twice(p) == << 2 * p[1], 2 * p[2], 2 * p[3] >>
Known(p) == Len(p) = 3
Middle(g) == << (g[1][1] + g[2][1]) \div 2, (g[1][2] + g[2][2]) \div 2, (g[1][3] + g[2][3]) \div 2 >>
\* ------------------------------------------------------------- descriptions
Named(e) == Cardinality(SetOf(e.n)) = Len(e.n) /\ \A i \in DOMAIN e.n : Known(e.n[i])
Faces(e) == \A i \in DOMAIN e.f : Len(e.f[i]) = 3 /\ \A j \in 1..3 : Known(e.f[i][j])
Weights(w) == \A j \in DOMAIN w : w[j][2] > 0
Truth(e, p) ==
  LET ws == IF e.k = "vertex" THEN << << 1, 1 >> >> ELSE IF e.k = "edge" THEN << << e.w[1][2] - e.w[1][1], e.w[1][2] >>, e.w[1] >> ELSE e.w
  IN /\ Len(e.c) = Len(ws) /\ Weights(e.w) /\ (\A j \in DOMAIN e.c : Known(e.c[j])) /\ Weigh([j \in DOMAIN e.c |-> Twice(e.c[j])], ws, p)
     /\ Named(e) /\ Faces(e)
     \* the faces named are those at the edge, or the one the weights are of
     /\ (e.k = "edge" => Cardinality(SetOf(e.f)) = 2 /\ SetOf(e.n) = SetOf(e.c) /\ \A i \in DOMAIN e.f : SetOf(e.c) \subseteq SetOf(e.f[i]))
     /\ (e.k = "face" => Len(e.f) = 1 /\ SetOf(e.f[1]) = SetOf(e.c))
Line(r) == << Twice(r.p[1]), Twice(r.p[2]) >>
Errs(c) ==
  IF c.fail # << >> THEN { "fail" }
  ELSE IF \E r \in SetOf(c.A) \cup SetOf(c.B) : ~(Known(r.p[1]) /\ Known(r.p[2])) THEN { "point" }
  ELSE LET st == Steps(c)
           side(L) == TLCEval({ Line(L[i]) : i \in DOMAIN L })
           a == side(c.A)
           b == side(c.B)
           on(p) == OnSurface(st[1].V, st[1].s, p) /\ OnSurface(st[2].V, st[2].s, p)
           true(L) == \A i \in DOMAIN L : LET g == Line(L[i]) IN Truth(L[i].e[1], g[1]) /\ Truth(L[i].e[2], g[2])
           held(L) == \A i \in DOMAIN L : /\ Len(L[i].f) = 3 /\ \A j \in 1..3 : Known(L[i].f[j])
                                          /\ LET t == << Twice(L[i].f[1]), Twice(L[i].f[2]), Twice(L[i].f[3]) >> IN \A n \in 1..2 : InTriangle(t, Line(L[i])[n])
           need == TLCEval(Lines(st))
       IN When(a = b /\ Len(c.A) = Len(c.B), "both")
          \cup When(\A g \in a : on(g[1]) /\ on(g[2]) /\ on(Middle(g)), "on")
          \cup When(\A p \in need : Covered(p, a) /\ Covered(p, b), "cover")
          \cup When(true(c.A) /\ true(c.B), "truth")
          \cup When(held(c.A) /\ held(c.B), "face")
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
