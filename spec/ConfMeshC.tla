----------------------------- MODULE ConfMeshC -----------------------------
(* Conformance of recorded clean-ups.                                       *)
EXTENDS HalfEdge, MeshClean, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Full(r) == [v |-> r.v, h |-> r.h, f |-> r.f, p |-> r.p, e |-> SetOf(r.e)]
Abstract(r) == TLCEval([p |-> r.p, dead |-> Retired(r), F |-> Triangles(r)])
\* merging vertices in use leaves edges to be joined by the next step
StepErrs(o, m, r, n, joined) ==
  LET w == IF o = "dup" /\ Doubled(m) THEN (IF RefsOk(r) THEN {} ELSE {"wf-ref"}) ELSE Shape(r)
  IN IF "wf-ref" \in w THEN w ELSE
     LET u == Abstract(r)
     IN w \cup CASE o = "dup" -> When(DupOk(m, u), "merge") \cup When(n = Cardinality(Live(m)) - Cardinality(Live(u)), "count")
                 [] o = "unused" -> When(UnusedOk(m, u), "unused")
                 [] o = "faces" -> When(FacesOk(m, u), "faces") \cup When(\A k \in DOMAIN r.f : r.f[k] # 0, "compact")
Tag(S, o) == { s \o "/" \o o : s \in S }
RECURSIVE Walk(_, _, _)
Walk(c, k, m) ==
  IF k > Len(c.n)
  THEN IF c.fail # << >> THEN { "fail" }
       ELSE When(\A i \in DOMAIN c.look : c.look[i][3] = 1 /\ m.p[c.look[i][1]] = m.p[c.look[i][2]], "lookup")
  ELSE LET r == Full(c.r[k + 1])
           e == Tag(StepErrs(c["do"][k], m, r, c.n[k], k > 1), c["do"][k])
       IN IF e # {} THEN e ELSE Walk(c, k + 1, Abstract(r))
Errs(c) == LET m == Abstract(Full(c.r[1])) IN IF Weldable(m) \/ c["do"][1] # "dup" THEN Walk(c, 1, m) ELSE {}
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
