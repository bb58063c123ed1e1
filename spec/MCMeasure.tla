------------------------------ MODULE MCMeasure ------------------------------
(* Laws of the measures on every mesh reached by edits: they do not depend  *)
(* on where a face starts, closed surfaces have no net normal, splitting    *)
(* adds up, and the two directions of an edge agree.                        *)
EXTENDS MCMesh, Measure
RECURSIVE Total(_, _)
Total(p, F) == IF F = {} THEN <<0, 0, 0>>
               ELSE LET t == CHOOSE t \in F : TRUE
                        s == Total(p, F \ {t})
                        w == Normal(p, t)
                    IN << s[1] + w[1], s[2] + w[2], s[3] + w[3] >>
Net == Total(m.p, m.F)
StartFree == \A t \in m.F : /\ Normal(m.p, Rot(t)) = Normal(m.p, t) /\ Square(m.p, Rot(t)) = Square(m.p, t)
                            /\ Thrice(m.p, Rot(t)) = Thrice(m.p, t) /\ Low(m.p, Rot(t)) = Low(m.p, t) /\ High(m.p, Rot(t)) = High(m.p, t)
                            /\ Normal(m.p, << t[2], t[1], t[3] >>) = [i \in 1..3 |-> -Normal(m.p, t)[i]]
NoNet == m.F # {} /\ Border(m.F) = {} => Net = <<0, 0, 0>>
Twins == \A e \in Dir(m.F) : LET a == m.p[e[1]]
                                 b == m.p[e[2]]
                             IN Halves(a, b) => OnEdge(a, b, Mid(a, b)) /\ Along(a, b, Mid(a, b), <<1, 2>>) /\ Along(b, a, Mid(a, b), <<1, 2>>)
Ends == \A t \in m.F : ~FlatTri(m.p[t[1]], m.p[t[2]], m.p[t[3]]) =>
          /\ SameWay(Normal(m.p, t), Normal(m.p, t)) /\ ~SameWay(Normal(m.p, t), Normal(m.p, << t[2], t[1], t[3] >>))
          /\ OnEdge(m.p[t[1]], m.p[t[2]], m.p[t[1]]) /\ OnEdge(m.p[t[1]], m.p[t[2]], m.p[t[2]]) /\ ~OnEdge(m.p[t[1]], m.p[t[2]], m.p[t[3]])
Inside == \A t \in m.F : \A i \in 1..3 : 3 * Low(m.p, t)[i] <= Thrice(m.p, t)[i] /\ Thrice(m.p, t)[i] <= 3 * High(m.p, t)[i]
\* a split keeps the net normal of the whole surface, and that of what it splits
SplitsAdd == [][edit' \in {"splite", "splitf"} => Total(m'.p, m'.F) = Total(m.p, m.F)]_vars
=============================================================================
