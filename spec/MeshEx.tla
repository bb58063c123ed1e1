------------------------------- MODULE MeshEx -------------------------------
(* Every history of a few edits, possible or refused, from small surfaces:  *)
(* each triangle added, each removed, each edge flipped, split or collapsed *)
(* in each direction, each triangle split in its interior.                  *)
EXTENDS Mesh, TLC, Json
CONSTANTS Depth, Seeds
VARIABLES m, hist, left
P0 == << <<0,0,0>>, <<4096,0,0>>, <<0,4096,0>>, <<0,0,4096>>, <<4096,4096,1024>>, <<8192,2048,0>> >>
Seed(k) ==
  CASE k = 1 -> << <<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<1,4,3>> >>
    [] k = 2 -> << <<1,2,3>> >>
    [] k = 3 -> << <<1,2,3>>, <<2,5,3>> >>
    [] k = 4 -> << <<1,2,3>>, <<2,5,3>>, <<2,6,5>> >>
    [] k = 5 -> << <<1,2,4>>, <<2,3,4>>, <<3,1,4>>, <<1,5,2>>, <<2,5,3>>, <<3,5,1>> >>
    [] k = 6 -> << <<1,2,3>>, <<1,4,5>> >>
    [] k = 7 -> << <<1,2,4>>, <<2,3,4>>, <<3,5,4>>, <<5,1,4>> >>
Op(o, v, t, p) == [o |-> o, v |-> v, t |-> t, p |-> p]
Init == \E k \in Seeds :
          /\ m = [p |-> P0, dead |-> {}, F |-> AddAll({}, Seed(k))]
          /\ hist = << Op("verts", <<>>, P0, <<>>), Op("addm", <<>>, Seed(k), <<>>) >>
          /\ left = Depth
New == Len(m.p) + 1
\* an edit that is refused changes nothing and ends the history
Did(o, x) == /\ m' = x /\ hist' = Append(hist, o) /\ left' = IF x = m THEN 0 ELSE left - 1
             /\ IF left' = 0 THEN PrintT("BEHAVIOUR " \o ToJson([q |-> 0, ops |-> hist'])) ELSE TRUE
If(b, x) == IF b THEN x ELSE m
Add == \E a, b, c \in Live(m) : a < b /\ a < c /\ b # c /\ Did(Op("addt", << a, b, c >>, <<>>, <<>>), [m EXCEPT !.F = AddTri(m.F, a, b, c)])
Rem == \E t \in m.F : Did(Op("remt", t, <<>>, <<>>), [m EXCEPT !.F = m.F \ {t}])
RemTwo == \E t, u \in m.F : t # u /\ Did(Op("remm", <<>>, << t, u >>, <<>>), [m EXCEPT !.F = m.F \ {t, u}])
DoFlip == \E e \in Spokes(m.F) : Did(Op("flip", e, <<>>, <<>>), If(CanFlip(m, e[1], e[2]), [m EXCEPT !.F = Flip(m.F, e[1], e[2])]))
DoSplitE == \E e \in Spokes(m.F) : LET q == Mid(m.p[e[1]], m.p[e[2]]) IN
   /\ NoPillow(m.F, e[1], e[2])
   /\ Did(Op("spe", e, <<>>, q), If(At(m, q) = {}, [m EXCEPT !.F = SplitEdge(m.F, e[1], e[2], New), !.p = Append(m.p, q)]))
DoSplitF == \E t \in m.F : LET q == Mid(Mid(m.p[t[1]], m.p[t[2]]), m.p[t[3]]) IN
   /\ ~FlatTri(m.p[t[1]], m.p[t[2]], m.p[t[3]])
   /\ Did(Op("spf", t, <<>>, q), [m EXCEPT !.F = SplitFace(m.F, t, New), !.p = Append(m.p, q)])
DoCollapse == \E u, v \in Used(m.F) : u # v /\ OneFan(m.F, u) /\ OneFan(m.F, v)
   /\ Did(Op("col", << u, v >>, <<>>, <<>>), If(CanCollapse(m, u, v), CollapseMesh(m, u, v)))
Next == left > 0 /\ (Add \/ Rem \/ RemTwo \/ DoFlip \/ DoSplitE \/ DoSplitF \/ DoCollapse)
=============================================================================
