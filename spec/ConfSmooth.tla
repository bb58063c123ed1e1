----------------------------- MODULE ConfSmooth -----------------------------
(* Conformance of smoothing and remeshing.  Positions come as wide integers *)
(* in units of 1 / 100 of a lattice unit, so they are known to 1 / 200.      *)
EXTENDS HalfEdge, Smooth, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Fine == 100
Abs(w) == IF WSgn(w) < 0 THEN WSub(<< >>, w) ELSE w
Faces(s) == { Canon(s[i]) : i \in DOMAIN s }
Near0(w) == WLe(Abs(w), WOf(2))
Apart(a, b) == \E i \in 1..3 : ~Near0(WSub(a[i], b[i]))
\* ---------------------------------------------------------------- smoothing
Slack == WOf(300)
\* below this the normal is not known well enough
Firm == WMul(WOf(1024 * 1024), WOf(Fine * Fine))
StepErrs(F, p, s) ==
  LET T == Target(F, p, s.v, s.a)
      n == Normal(F, p, s.v)
      known == ~Inside(F, s.v) \/ WLe(WMul(Firm, Firm), WDot(n, n))
      far2 == WMul(WOf(s.far * Fine), WOf(s.far * Fine))
      at == { i \in 1..3 : ~WLe(Abs(WSub(WMul(s.p[i], T.Q), T.P[i])), WMul(Slack, T.Q)) }
  IN IF ~known THEN {}
     ELSE When(s.r \in Moves(F, p, s.v, T, far2), "answer")
          \cup When(IF s.r THEN at = {} ELSE s.p = p[s.v], "place")
RECURSIVE Along(_, _, _, _)
Along(F, p, st, k) ==
  IF k > Len(st) THEN {}
  ELSE LET s == st[k]
           e == StepErrs(F, p, s) \cup When(s.n = 0, "others") \cup When(s.found = s.v \/ (s.found \in DOMAIN p /\ ~Apart(s.p, p[s.found])), "found") \cup When(s.still = 0, "old-place")
       IN IF e # {} THEN { x \o "/smooth" : x \in e } ELSE Along(F, [p EXCEPT ![s.v] = s.p], st, k + 1)
SmoothErrs(c) == IF c.fail # << >> THEN {"fail/smooth"} ELSE Along(Faces(c.F), c.p, c.st, 1) \cup When(c.sweep[1] = c.sweep[2], "sweep/smooth")
\* ---------------------------------------------------------------- remeshing
Faced(p, t) == LET n == WOrient2(p[t[1]], p[t[2]], p[t[3]]) IN WLe(WSub(<< >>, WOf(2000000)), n)
\* after one round: vertices are added when an edge is long and only then, and go only when one is short
Long(c, F) == { LET d == WVec(c.p0[e[1]], c.p0[e[2]]) IN Near(WDot(d, d), WMul(WOf(145 * c.len), WOf(145 * c.len))) : e \in Dir(F) }
Short(c, F) == { LET d == WVec(c.p0[e[1]], c.p0[e[2]]) IN Near(WDot(d, d), WMul(WOf(75 * c.len), WOf(75 * c.len))) : e \in Dir(F) }
\* a vertex is at the middle of an edge already
Occupied(c, F) == \E e \in Dir(F), v \in DOMAIN c.p0 : ~Apart(WTimes(WOf(2), c.p0[v]), WPlus(c.p0[e[1]], c.p0[e[2]]))
Counted(c, F) ==
  LET added == Len(c.m.v) - Len(c.p0)
      gone == Cardinality({ i \in DOMAIN c.m.v : c.m.v[i][2] = 1 }) - c.dead0
      L == Long(c, F)
  IN c.len = 0 \/ c.times # 1 \/ Cardinality(Used(F)) + c.dead0 < Len(c.p0) \/ \* a vertex without triangles may be taken up
     /\ (1 \in L /\ ~Occupied(c, F)) => added > 0
     /\ L = {-1} => added = 0
     /\ (L = {-1} /\ Short(c, F) = {1}) => gone = 0
     /\ c.m.v # << >> => gone >= 0
RemeshErrs(c) ==
  IF c.fail # << >> THEN {"fail/remesh"} ELSE
  LET F == Faces(c.F)
      r == [v |-> c.m.v, h |-> c.m.h, f |-> c.m.f, p |-> << >>, e |-> SetOf(c.m.e)]
      w == Shape(r)
      G == Triangles(r)
      U == Used(G)
      even == c.flat /\ \A t \in F : WSgn(WOrient2(c.p0[t[1]], c.p0[t[2]], c.p0[t[3]])) > 0
  IN IF w # {} THEN { x \o "/remesh" : x \in w }
     ELSE { x \o "/remesh" : x \in
       When((G = {} /\ Border(F) # {}) \/ Topology(G) = Topology(F), "topology")
       \cup When(Counted(c, F), "lengths")
       \cup When(\A v \in U : c.found[v] = v \/ (c.found[v] \in DOMAIN c.p /\ ~Apart(c.p[v], c.p[c.found[v]])), "found")
       \cup When(~c.flat \/ \A v \in U : Near0(c.p[v][3]), "plane")
       \cup When(~even \/ \A t \in G : Faced(c.p, t), "turned") }
Errs(c) == IF c.k = "smooth" THEN SmoothErrs(c) ELSE RemeshErrs(c)
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
