----------------------------- MODULE ConfMeshL -----------------------------
(* Conformance of recorded point location: an answer names a live face and  *)
(* says truthfully where the point lies on it.                              *)
EXTENDS Mesh, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Pos(r) == r[2] > 0 /\ r[1] > 0
\* q = a + u (b - a)
AtU(a, b, u, q) == u[2] > 0 /\ \A i \in DOMAIN q : (q[i] - a[i]) * u[2] = u[1] * (b[i] - a[i])
\* three weights over a common denominator
WeightsOk(p, t, b, q) ==
  /\ b[4] > 0 /\ b[1] + b[2] + b[3] = b[4]
  /\ \A i \in DOMAIN q : b[1] * p[t[1]][i] + b[2] * p[t[2]][i] + b[3] * p[t[3]][i] = b[4] * q[i]
Truth(F, p, x) ==
  /\ Canon(x.t) \in F
  /\ CASE x.k = "inside" -> WeightsOk(p, x.t, x.b, x.q) /\ \A i \in 1..3 : x.b[i] > 0
       [] x.k = "edge" -> x.e \in Sides(x.t) /\ Pos(x.u) /\ x.u[1] < x.u[2] /\ AtU(p[x.e[1]], p[x.e[2]], x.u, x.q)
       [] x.k = "vertex" -> x.v \in Corners(x.t) /\ p[x.v] = x.q
       [] OTHER -> FALSE
On(p, e, q) == /\ FlatTri(p[e[1]], p[e[2]], q)
               /\ \A i \in DOMAIN q : (p[e[1]][i] <= q[i] /\ q[i] <= p[e[2]][i]) \/ (p[e[2]][i] <= q[i] /\ q[i] <= p[e[1]][i])
Dot(a, b) == LET v == [i \in DOMAIN a |-> a[i] * b[i]] IN IF Len(a) = 2 THEN v[1] + v[2] ELSE v[1] + v[2] + v[3]
EdgeTruth(F, p, x) == /\ x.r \in Spokes(F) /\ On(p, x.r, x.q)
                      /\ Dot(Vec(p[x.r[1]], p[x.r[2]]), Vec(p[x.h[1]], p[x.h[2]])) > 0
HereErrs(F, p, x) ==
  LET onE == \E e \in Sides(x.f) : On(p, e, x.q)
      inside == x.k = "inside"
  IN When(x.k = "none" \/ (x.t = x.f /\ Truth(F, p, x)), "location")
     \cup When(IF x.on = << >> THEN ~onE ELSE x.on[1] \in Sides(x.f) /\ x.on[2][1] >= 0 /\ x.on[2][1] <= x.on[2][2] /\ AtU(p[x.on[1][1]], p[x.on[1][2]], x.on[2], x.q), "on-edge")
     \cup When(IF x.bc = << >> THEN ~inside /\ ~onE ELSE x.k # "none" /\ WeightsOk(p, x.f, x.bc, x.q), "weights")
Errs(c) ==
  IF c.fail # << >> THEN { "fail-" \o c.fail[1] } ELSE
  LET F == SetOf(c.F)
      a == c.a[1]
  IN UNION { When(Truth(F, c.p, a.ask[i]), "face") : i \in DOMAIN a.ask }
     \cup UNION { When(EdgeTruth(F, c.p, a.along[i]), "half-edge") : i \in DOMAIN a.along }
     \cup UNION { HereErrs(F, c.p, a.here[i]) : i \in DOMAIN a.here }
     \cup UNION { When(SetOf(a.within[i].f) = SetOf(a.within[i].w) /\ Len(a.within[i].f) = Len(a.within[i].w), "within") : i \in DOMAIN a.within }

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
