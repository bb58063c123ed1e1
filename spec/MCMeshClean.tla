---------------------------- MODULE MCMeshClean ----------------------------
(* Laws of cleaning: welding a soup of triangles that was cut out of a mesh *)
(* restores the mesh, and welding keeps the surface.                        *)
EXTENDS MeshClean, TLC
P0 == << <<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>, <<2,1>> >>
Tris == { << 1, 2, 3 >>, << 2, 4, 3 >>, << 2, 5, 4 >>, << 1, 3, 2 >>, << 3, 4, 5 >> }
VARIABLES F, own
\* own: the triangles that get corners of their own
Order(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Init == /\ F \in { S \in SUBSET Tris : Proper(S) } /\ own \in SUBSET F
Next == UNCHANGED << F, own >>
Own == Order(own)
P == P0 \o [k \in 1..(3 * Len(Own)) |-> P0[Own[((k - 1) \div 3) + 1][((k - 1) % 3) + 1]]]
Cut == (F \ own) \cup { << 5 + 3 * k - 2, 5 + 3 * k - 1, 5 + 3 * k >> : k \in DOMAIN Own }
M == [p |-> P, dead |-> {}, F |-> Cut]
WeldBack == Weldable(M) /\ Weld(M) = F
Keeps == SameSurface(M, [M EXCEPT !.F = Weld(M)]) /\ DupOk(M, [p |-> P0, dead |-> {}, F |-> F])
=============================================================================
