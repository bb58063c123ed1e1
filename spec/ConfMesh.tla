------------------------------ MODULE ConfMesh ------------------------------
(* Conformance of recorded mesh edit histories.  Every step carries what    *)
(* the edit answered and the half-edge structure after it.  The structure   *)
(* is judged by HalfEdge, the change it stands for by Mesh.                 *)
EXTENDS HalfEdge, Json, IOUtils, TLC

\* Records carry what changed: d.h = <<new length, << <<index, value>>, ... >> >>, d.e = <<added, removed>>
Patch(old, d) == LET ch == { d[2][i][1] : i \in DOMAIN d[2] }
                     val == [k \in ch |-> (CHOOSE i \in DOMAIN d[2] : d[2][i][1] = k)]
                 IN TLCEval([k \in 1..d[1] |-> IF k \in ch THEN d[2][val[k]][2] ELSE old[k]])
SetOf(s) == { s[i] : i \in DOMAIN s }
Update(r, d) == [v |-> Patch(r.v, d.v), h |-> Patch(r.h, d.h), f |-> Patch(r.f, d.f), p |-> Patch(r.p, d.p),
                 e |-> TLCEval((r.e \ SetOf(d.e[2])) \cup SetOf(d.e[1]))]
Blank == [v |-> << >>, h |-> << >>, f |-> << >>, p |-> << >>, e |-> {}]
Abstract(r) == [p |-> r.p, dead |-> Retired(r), F |-> Triangles(r)]
\* what an edit must do: the answers allowed, the vertex named in the answer,
\* the triangles named in it, and the mesh after it
Out(s, n, t, m) == [s |-> s, n |-> n, t |-> t, m |-> m]
Same(s, m) == Out(s, {0}, {}, m)
Grown(m, q, F) == [p |-> Append(m.p, q), dead |-> m.dead, F |-> F]
SplitEdgeOut(m, a, b, q) ==
  IF At(m, q) # {} THEN Out("none", At(m, q), {}, m)
  ELSE LET F == SplitEdge(m.F, a, b, Len(m.p) + 1) IN Out("edge", { Len(m.p) + 1 }, F \ m.F, Grown(m, q, F))
Between(a, b, q) == FlatTri(a, b, q) /\ \A i \in DOMAIN a : (a[i] <= q[i] /\ q[i] <= b[i]) \/ (b[i] <= q[i] /\ q[i] <= a[i])
Expect(op, m) ==
  CASE op.o = "verts" -> Out("ok", { Len(m.p) + Len(op.t) }, {}, [m EXCEPT !.p = @ \o op.t])
    [] op.o = "addt" -> LET F == AddTri(m.F, op.v[1], op.v[2], op.v[3])
                        IN Out(IF F = m.F THEN "no" ELSE "ok", {0}, F \ m.F, [m EXCEPT !.F = F])
    [] op.o = "addm" -> LET F == AddAll(m.F, op.t) IN Out("ok", {0}, F \ m.F, [m EXCEPT !.F = F])
    [] op.o = "remt" -> Same("ok", [m EXCEPT !.F = @ \ { Canon(op.v) }])
    [] op.o = "remm" -> Same("ok", [m EXCEPT !.F = @ \ { Canon(op.t[i]) : i \in DOMAIN op.t }])
    [] op.o = "flip" -> IF CanFlip(m, op.v[1], op.v[2]) THEN Same("ok", [m EXCEPT !.F = Flip(m.F, op.v[1], op.v[2])]) ELSE Same("no", m)
    [] op.o = "col" -> IF CanCollapse(m, op.v[1], op.v[2]) THEN Same("ok", CollapseMesh(m, op.v[1], op.v[2])) ELSE Same("no", m)
    [] op.o = "cop" -> IF CanCollapseTo(m, op.v[1], op.v[2], op.p, op.t[1][1] = 1, op.t[1][2] = 1) THEN Same("ok", CollapseTo(m, op.v[1], op.v[2], op.p)) ELSE Same("no", m)
    [] op.o = "getv" -> IF At(m, op.p) # {} THEN Out("old", At(m, op.p), {}, m) ELSE Out("new", { Len(m.p) + 1 }, {}, Grown(m, op.p, m.F))
    [] op.o = "loops" -> Same("ok", m)
    [] op.o = "spe" -> SplitEdgeOut(m, op.v[1], op.v[2], op.p)
    [] op.o = "spf" ->
         LET t == op.v
             q == op.p
             P(i) == m.p[t[i]]
             E == { e \in Sides(t) : Between(m.p[e[1]], m.p[e[2]], q) }
         IN IF \E i \in 1..3 : P(i) = q THEN Out("none", At(m, q), {}, m)
            ELSE IF E # {} THEN LET e == CHOOSE e \in E : TRUE IN SplitEdgeOut(m, e[1], e[2], q)
            ELSE LET F == SplitFace(m.F, Canon(t), Len(m.p) + 1) IN Out("face", { Len(m.p) + 1 }, F \ m.F, Grown(m, q, F))

Keeping == { "flip", "spe", "spf", "col", "cop", "loops" }

EffectErrs(op, m, u, a) ==
  LET x == Expect(op, m) IN
  IF a.s = "lost" THEN {"lost"} ELSE
  (IF a.s = x.s THEN {} ELSE {"answer"})
  \cup (IF a.s = x.s /\ a.n \notin x.n THEN {"vertex"} ELSE {})
  \cup (IF a.s # x.s \/ (SetOf(a.t) = x.t /\ Len(a.t) = Cardinality(x.t)) THEN {} ELSE {"faces"})
  \cup (IF u.F = x.m.F THEN {} ELSE {"triangles"})
  \cup (IF u.dead = x.m.dead THEN {} ELSE {"retired"})
  \cup (IF /\ Len(u.p) = Len(x.m.p) /\ \A v \in Live(x.m) : u.p[v] = x.m.p[v] THEN {} ELSE {"positions"})

TopoErrs(op, m, u) ==
  IF op.o \in Keeping /\ Manifold(m.F) /\ ~(op.o \in {"col", "cop"} /\ Consumes(m.F, op.v[1], op.v[2])) /\ Topology(u.F) # Topology(m.F) THEN {"topology"} ELSE {}

Tag(S, o) == { s \o "/" \o o : s \in S }
RECURSIVE Walk(_, _, _, _)
Walk(c, k, r, m) ==
  IF k > Len(c.r) THEN IF c.fail # << >> THEN { "fail/" \o c.ops[k].o } ELSE IF k <= Len(c.ops) THEN {"stopped"} ELSE {}
  ELSE LET s == c.r[k]
           o == c.ops[k].o
           x == Update(r, s.m)
           w == IF s.a.s = "lost" THEN {} ELSE Shape(x)
       IN IF "wf-ref" \in w THEN Tag(w, o)
          ELSE LET u == Abstract(x)
                   e == Tag(w, o) \cup Tag(EffectErrs(c.ops[k], m, u, s.a), "effect-" \o o) \cup Tag(TopoErrs(c.ops[k], m, u), o)
                        \cup (IF s.tree = << >> \/ (SetOf(s.tree[1]) = u.F /\ Len(s.tree[1]) = Cardinality(u.F)) THEN {} ELSE {"tree/" \o o})
                        \cup (IF s.at = << >> \/ \A f \in u.F : \A j \in 1..3 : f \in SetOf(s.at[1][f[j]]) THEN {} ELSE {"filed/" \o o})
               IN IF e # {} THEN e ELSE Walk(c, k + 1, x, u)

Errs(c) == Walk(c, 1, Blank, [p |-> << >>, dead |-> {}, F |-> {}])

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
