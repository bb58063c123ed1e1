------------------------------- MODULE MCMesh -------------------------------
(* Laws of the abstract mesh: every edit keeps directed edges unique, and   *)
(* splits, flips and collapses keep the topology of a manifold.             *)
EXTENDS Mesh, TLC
CONSTANTS Depth, MaxV, Seeds
VARIABLES m, n, edit
P0 == << <<0,0,0>>, <<4096,0,0>>, <<0,4096,0>>, <<0,0,4096>>, <<4096,4096,1024>>, <<8192,2048,0>> >>
Seed(k) ==
  CASE k = 1 -> << <<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<1,4,3>> >>
    [] k = 2 -> << <<1,2,3>> >>
    [] k = 3 -> << <<1,2,3>>, <<2,5,3>> >>
    [] k = 4 -> << <<1,2,3>>, <<2,5,3>>, <<2,6,5>> >>
    [] k = 5 -> << <<1,2,4>>, <<2,3,4>>, <<3,1,4>>, <<1,5,2>>, <<2,5,3>>, <<3,5,1>> >>
    [] k = 6 -> << <<1,2,3>>, <<1,4,5>> >>
    [] k = 7 -> << <<1,2,4>>, <<2,3,4>>, <<3,5,4>>, <<5,1,4>> >>
Init == \E k \in Seeds : m = [p |-> P0, dead |-> {}, F |-> AddAll({}, Seed(k))] /\ n = 0 /\ edit = "start"
Verts == Live(m)
New == Len(m.p) + 1
Step(o, x) == edit' = o /\ m' = x
Add == \E a, b, c \in Verts : a < b /\ a < c /\ b # c /\ Step("add", [m EXCEPT !.F = AddTri(m.F, a, b, c)])
Rem == \E t \in m.F : Step("rem", [m EXCEPT !.F = m.F \ {t}])
DoFlip == \E e \in { x \in Dir(m.F) : x[1] < x[2] } : CanFlip(m, e[1], e[2]) /\ Step("flip", [m EXCEPT !.F = Flip(m.F, e[1], e[2])])
DoSplitE == New <= MaxV /\ \E e \in Dir(m.F) :
   /\ Halves(m.p[e[1]], m.p[e[2]]) /\ NoPillow(m.F, e[1], e[2])
   /\ Step("splite", [m EXCEPT !.F = SplitEdge(m.F, e[1], e[2], New), !.p = Append(m.p, Mid(m.p[e[1]], m.p[e[2]]))])
DoSplitF == New <= MaxV /\ \E t \in m.F :
   Step("splitf", [m EXCEPT !.F = SplitFace(m.F, t, New), !.p = Append(m.p, Mid(Mid(m.p[t[1]], m.p[t[2]]), m.p[t[3]]))])
DoCollapse == \E e \in Spokes(m.F) : /\ OneFan(m.F, e[1]) /\ OneFan(m.F, e[2])
   /\ \E q \in { Mid(m.p[e[1]], m.p[e[2]]), m.p[e[2]] }, turn \in BOOLEAN :
        /\ CanCollapseTo(m, e[1], e[2], q, FALSE, turn)
        /\ Step(IF Consumes(m.F, e[1], e[2]) THEN "consume" ELSE "collapse", CollapseTo(m, e[1], e[2], q))
Next == n < Depth /\ n' = n + 1 /\ (Add \/ Rem \/ DoFlip \/ DoSplitE \/ DoSplitF \/ DoCollapse)
vars == << m, n, edit >>
Sound == Proper(m.F) /\ Used(m.F) \cap m.dead = {}
Counts == Manifold(m.F) => /\ 2 * Cardinality(Edges(m.F)) = 3 * Cardinality(m.F) + Cardinality(Border(m.F))
                           /\ \A v \in Used(m.F) : Cardinality(Nbrs(m.F, v)) = Cardinality(Star(m.F, v)) + (IF OnBorder(m.F, v) THEN 1 ELSE 0)
KeepsManifold == edit' = "consume" /\ Manifold(m.F) => Manifold(m'.F) /\ Cardinality(Components(m'.F)) = Cardinality(Components(m.F)) - 1
Keeps == edit' \in {"flip", "splite", "splitf", "collapse"} /\ Manifold(m.F) => Topology(m'.F) = Topology(m.F)
KeepsTopology == [][Keeps /\ KeepsManifold]_vars
\* adding and removing are inverse
Inverse == \A t \in m.F : Addable(m.F \ {t}, t[1], t[2], t[3])
FlipBack == \A e \in Dir(m.F) : e[1] < e[2] /\ CanFlip(m, e[1], e[2]) =>
   LET cd == FlipOf(m.F, e[1], e[2]) IN Flip(Flip(m.F, e[1], e[2]), cd[1], cd[2]) = m.F
=============================================================================
