----------------------------- MODULE SmoothGen -----------------------------
(* Random manifold meshes, with vertices to smooth and lengths to remesh to. *)
EXTENDS MeshGen
Whole(x) == /\ x.F # {} /\ Manifold(x.F) /\ Cardinality(Components(x.F)) = 1
            /\ \A t \in x.F : ~FlatTri(x.p[t[1]], x.p[t[2]], x.p[t[3]])
            /\ \A s, t \in x.F : s # t => Corners(s) # Corners(t)
            /\ \A u, v \in Used(x.F) : u # v => x.p[u] # x.p[v]
Smooth(x) == [v |-> Pick(Used(x.F)), a |-> Pick({ << 1, 2 >>, << 1, 1 >>, << 1, 4 >>, << 3, 2 >> }), far |-> Pick({ 900, 1800, 2500, 3100, 4300, 20000 })]
Lengths == { 0, 300, 700, 1100, 1700, 2600, 4000, 9000 }
FinishS == /\ ~done /\ done' = TRUE /\ UNCHANGED << m, hist, todo, prof, idle >>
           /\ Whole(m) =>
              \E s \in {TLCEval([i \in 1..Pick(3..8) |-> Smooth(m)])}, l \in {Pick(Lengths)}, n \in {Pick(1..3)} :
                PrintT("BEHAVIOUR " \o ToJson([q |-> prof, ops |-> hist, smooth |-> s, len |-> l, times |-> n]))
NextS == IF todo # << >> THEN Put /\ UNCHANGED << prof, idle, done >>
         ELSE IF Cardinality({ i \in DOMAIN hist : hist[i].o \notin {"verts"} }) + idle >= MaxLen \/ Cardinality(m.F) > 24 THEN FinishS
         ELSE Change
=============================================================================
