---------------------------- MODULE ConfMeasure ----------------------------
(* Conformance of the recorded measures of the faces and edges of a mesh.   *)
EXTENDS Measure, Json, IOUtils, TLC
When(c, n) == IF c THEN {} ELSE {n}
\* equal, or for doubles equal to about eight digits
Near(a, b, exact) == a = b \/ (~exact /\ LET d == WSub(a, b)
                                            e == IF WSgn(d) < 0 THEN WSub(<< >>, d) ELSE d
                                        IN WLe(WMul(e, WOf(100000000)), b))
Third(r, s) == r[2] # 0 /\ \A i \in {1} : WMul(WOf(r[1]), WOf(3)) = WMul(WOf(r[2]), WOf(s))

FaceErrs(p, x, exact) ==
  LET t == x.t
      three == Len(p[t[1]]) = 3
      flat == FlatTri(p[t[1]], p[t[2]], p[t[3]])
  IN When(\A i \in DOMAIN p[t[1]] : Third(x.c[i], Thrice(p, t)[i]), "centroid")
     \cup When(\A i \in DOMAIN p[t[1]] : Third(x.cf[i], Thrice(p, t)[i]), "centroid-fast")
     \cup When(x.lo = Low(p, t) /\ x.hi = High(p, t), "box")
     \cup (IF three
           THEN When(x.n = Normal(p, t), "normal")
                \cup When(Near(x.a, Square(p, t), exact), "area")
                \cup When(flat \/ (SameWay(x.pn, Normal(p, t)) /\ x.on = <<0, 0, 0>>), "plane")
                \cup When(Near(x.mv[1].a, Square(Moved(p, x.mv[1].v, x.mv[1].q), t), exact), "moved")
           ELSE When(x.a = WOf(Twice2(p, t)), "area"))

EdgeErrs(p, x) ==
  LET a == p[x.e[1]]
      b == p[x.e[2]]
  IN When(x.s = << a, b >>, "segment")
     \cup When(x.st = x.e, "ends")
     \cup UNION { LET q == x.q[i][1]
                      u == x.q[i][2]
                  IN IF a = b THEN {}
                     ELSE When((u # << >>) = OnEdge(a, b, q), "on-edge")
                          \cup When(u = << >> \/ Along(a, b, q, u), "along-edge") : i \in DOMAIN x.q }

Errs(c) ==
  IF c.fail # << >> THEN { "fail/" \o c.fail[1] } ELSE
  LET exact == c.t # "f64"
      a == c.a[1]
  IN UNION { FaceErrs(c.P, a.fs[i], exact) : i \in DOMAIN a.fs }
     \cup UNION { EdgeErrs(c.P, a.es[i]) : i \in DOMAIN a.es }

Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
