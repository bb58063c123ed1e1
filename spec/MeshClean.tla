----------------------------- MODULE MeshClean -----------------------------
(***************************************************************************)
(* Cleaning a mesh.  Merging gives all vertices at one position one name,   *)
(* dropping unused vertices and removed faces renames what is left.  None   *)
(* of them changes the surface: the bag of triangles, seen as cycles of     *)
(* positions.                                                               *)
(***************************************************************************)
EXTENDS Mesh
Cycle(m, t) == { << m.p[t[1]], m.p[t[2]], m.p[t[3]] >>, << m.p[t[2]], m.p[t[3]], m.p[t[1]] >>, << m.p[t[3]], m.p[t[1]], m.p[t[2]] >> }
Seen(m) == { Cycle(m, t) : t \in m.F }
SameSurface(m, u) == /\ Seen(m) = Seen(u) /\ Cardinality(m.F) = Cardinality(u.F)
                     /\ (Cardinality(Seen(m)) = Cardinality(m.F) \/ \A c \in Seen(m) :
                           Cardinality({ t \in m.F : Cycle(m, t) = c }) = Cardinality({ t \in u.F : Cycle(u, t) = c }))
Places(m) == { m.p[v] : v \in Live(m) }
\* the vertex that stands for v after merging
First(m, v) == CHOOSE w \in At(m, m.p[v]) : \A u \in At(m, m.p[v]) : w <= u
WeldTri(m, t) == Canon([i \in 1..3 |-> First(m, t[i])])
Weld(m) == { WeldTri(m, t) : t \in m.F }
\* merging yields a mesh again: no directed edge twice, no corner twice
Weldable(m) == LET W == Weld(m) IN Proper(W) /\ Cardinality(W) = Cardinality(m.F)
Doubled(m) == \E v, w \in Used(m.F) : v # w /\ m.p[v] = m.p[w]
DupOk(m, u) == SameSurface(m, u) /\ Places(u) = Places(m) /\ Cardinality(Live(u)) = Cardinality(Places(u))
UnusedOk(m, u) == /\ SameSurface(m, u) /\ u.dead = {} /\ Used(u.F) = 1..Len(u.p) /\ Len(u.p) = Cardinality(Used(m.F))
FacesOk(m, u) == u = m
=============================================================================
