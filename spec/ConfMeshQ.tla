----------------------------- MODULE ConfMeshQ -----------------------------
(* Conformance of recorded answers of mesh queries.                         *)
EXTENDS MeshQuery, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
Once(s) == Cardinality(SetOf(s)) = Len(s)

VertexErrs(F, x) ==
  LET v == x.v
      S == Star(F, v)
      N == Nbrs(F, v)
  IN IF ~OneFan(F, v)
     \* a vertex where several fans meet is turned around by whole fans
     THEN When(SetOf(x.n) \subseteq N /\ SetOf(x.f) \subseteq S \cup {<< >>} /\ SetOf(x.fv) \subseteq S /\ SetOf(x.if) \subseteq S, "ring")
     ELSE When(x.c = v /\ RingOk(F, v, x.n, x.f), "ring")
          \cup When(x.h = [i \in DOMAIN x.n |-> << v, x.n[i] >>], "ring")
          \cup When(x.b = OnBorder(F, v) /\ x.ib = OnBorder(F, v), "border")
          \cup When(TurnOk(F, v, x.o), "outgoing")
          \cup When(SetOf(x.r) = N /\ Once(x.r), "neighbours")
          \cup When(SetOf(x.fv) = S /\ Once(x.fv) /\ SetOf(x.if) = S /\ Once(x.if), "faces-at-vertex")

PairErrs(F, x) ==
  LET a == x.a
      b == x.b
      J == Joined(F, a, b)
      e == IF J THEN << a, b >> ELSE << >>
  IN When(x.h = e /\ x.vc = e /\ x.k = J, "edge")
     \cup When(x.e = IF J THEN << e, << b, a >> >> ELSE << >>, "edge")
     \cup When(x.ci = IF J THEN (IF a <= b THEN << a, b >> ELSE << b, a >>) ELSE << >>, "edge")
     \cup (IF ~OneFan(F, a) \/ ~OneFan(F, b) THEN {} ELSE
           When(x.rp = << >> <=> ~J, "pair")
           \cup (IF x.rp = << >> THEN {} ELSE LET r == x.rp[1] IN
                 When(r.a = One(Apex(F, << a, b >>)) /\ r.b = One(Apex(F, << b, a >>)), "pair")
                 \cup When(SetOf(r.c) = Common(F, a, b) /\ SetOf(r.u) = Around(F, a, b) /\ r.e = ~Inner(F, a, b), "pair"))
           \cup When(x.l1 = LinkOk(F, a, b) /\ x.l2 = LinkOk(F, a, b) /\ x.d = Doubles(F, a, b) /\ x.g = TwoGon(F, a, b), "link"))

FaceErrs(F, x) ==
  LET t == x.t
      A == Across(F, t)
  IN When(Canon(x.v) = t, "corners")
     \cup When(SetOf(x.h) = Sides(t) /\ Len(x.h) = 3 /\ x.e = x.h /\ x.h[1] = << x.v[1], x.v[2] >> /\ x.h[2] = << x.v[2], x.v[3] >>, "sides")
     \cup When(SetOf(x.a) = A /\ SetOf(x.g) = A /\ SetOf(x.s) = A /\ Len(x.a) = Len(x.s) /\ Len(x.a) = Len(x.g), "neighbour-faces")
     \cup When(Len(x.a) = Cardinality({ e \in Sides(t) : LeftOf(F, Rev(e)) # {} }), "neighbour-faces")

Found(F, c, f) == IF f = << >> THEN ~\E t \in F : SetOf(c) = Corners(t) ELSE f \in F /\ SetOf(c) \subseteq Corners(f)

Errs(c) ==
  IF c.fail # << >> THEN { "fail-" \o c.fail[1] } ELSE
  LET F == SetOf(c.F)
      a == c.a[1]
      Turned == { v \in Used(F) : OneFan(F, v) }
  IN UNION { VertexErrs(F, a.vq[i]) : i \in DOMAIN a.vq }
     \cup UNION { PairErrs(F, a.pq[i]) : i \in DOMAIN a.pq }
     \cup UNION { FaceErrs(F, a.fq[i]) : i \in DOMAIN a.fq }
     \cup When(\A i \in DOMAIN a.lone : a.lone[i][2] = 0 /\ a.lone[i][3] = 0 /\ a.lone[i][4] = 0, "lone")
     \cup When(\A i \in DOMAIN a.ff : a.ff[i][3] = (Shared(a.ff[i][1], a.ff[i][2]) # {}), "adjacent")
     \cup When(\A i \in DOMAIN a.vf : OneFan(F, a.vf[i][1]) => a.vf[i][3] = (a.vf[i][1] \in Corners(a.vf[i][2])), "touches")
     \cup When(\A i \in DOMAIN a.ft : SetOf(a.ft[i][1]) \subseteq Turned => Found(F, a.ft[i][1], a.ft[i][2]), "find-face")
     \cup When(SetOf(a.bv) \cap Turned = { v \in Turned : OnBorder(F, v) } /\ SetOf(a.bv) \subseteq Used(F) /\ Once(a.bv), "border-vertices")
     \cup When(a.tree = << >> \/ (SetOf(a.tree[1]) = F /\ Len(a.tree[1]) = Cardinality(F)), "tree")
     \cup When(a.at = << >> \/ \A f \in F : \A j \in 1..3 : f \in SetOf(a.at[1][f[j]]), "tree")

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
