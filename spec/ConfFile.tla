------------------------------ MODULE ConfFile ------------------------------
(* Conformance of reading and writing mesh files.                           *)
EXTENDS HalfEdge, MeshFile, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Full(r) == [v |-> r.v, h |-> r.h, f |-> r.f, p |-> r.p, e |-> SetOf(r.e)]
\* a mesh that was read: sound, and nothing in it retired
MeshErrs(r, ok(_, _)) ==
  LET w == Shape(r)
  IN IF w # {} THEN w ELSE When(Retired(r) = {} /\ \A k \in DOMAIN r.f : r.f[k] # 0, "retired") \cup When(ok(r.p, Triangles(r)), "content")
\* c.read is empty when reading failed with an error, c.panic when it did not return
DocErrs(c) ==
  LET s == Read(c.fmt, c.doc)
      T == c.fmt \o IF s.ok THEN "/good" ELSE "/bad"
  IN IF c.fail # << >> THEN { "fail/" \o T }
     ELSE IF ~s.ok THEN When(c.read = << >> \/ ~s.sure, "accepted/" \o T)
     ELSE IF ~s.sure THEN {}
     ELSE IF c.read = << >> THEN { "refused/" \o T }
     ELSE { e \o "/" \o T : e \in MeshErrs(Full(c.read[1]), LAMBDA p, F : p = s.p /\ F = s.F) }
\* the mesh that was written, what another reader finds in the file, what the library reads back
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
\* n, whose largest part is fifty long, has the direction of the normal
Along(n, a, b, c) ==
  LET u == Vec(a, b)
      v == Vec(a, c)
      w == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
      m == Max(Abs(w[1]), Max(Abs(w[2]), Abs(w[3])))
  IN m = 0 \/ \A i \in 1..3 : Abs(n[i] - ((w[i] * 50) \div m)) <= 1
TripErrs(c) ==
  IF c.fail # << >> THEN { "fail/" \o c.fmt }
  ELSE LET F == SetOf(c.F)
           ff == SetOf(c.ff)
           w == When(c.wrote = 1, "not-written/" \o c.fmt)
                \cup When(c.ok = 1 /\ Len(c.ff) = Cardinality(ff) /\ Same(c.fmt, c.p, F, [p |-> c.pf, F |-> ff]), "file/" \o c.fmt)
       IN IF w # {} THEN w
          ELSE When(\A i \in DOMAIN c.nf : Along(c.nf[i], c.pf[c.ff[i][1]], c.pf[c.ff[i][2]], c.pf[c.ff[i][3]]), "normal/" \o c.fmt)
               \cup (IF c.read = << >> THEN { "not-read/" \o c.fmt }
                     ELSE { e \o "/" \o c.fmt : e \in MeshErrs(Full(c.read[1]), LAMBDA p, G : Same(c.fmt, c.p, F, [p |-> p, F |-> G])) })
\* files that are no text, or not there
RawErrs(c) == When(c.fail = << >>, "fail/" \o c.fmt) \cup When(c.want = -1 \/ c.want = c.got, "answer/" \o c.fmt)
Errs(c) == CASE c.k = "iodoc" -> DocErrs(c) [] c.k = "iort" -> TripErrs(c) [] c.k = "ioraw" -> RawErrs(c)
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
