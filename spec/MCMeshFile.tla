----------------------------- MODULE MCMeshFile -----------------------------
(* Writing a mesh in any format and reading the document gives the mesh     *)
(* back, whatever the order of its triangles; cutting the document short    *)
(* never gives a mesh with other triangles.                                 *)
EXTENDS MeshFile
Pts == << <<0, 0, 0>>, <<4, 0, 0>>, <<0, 4, 1>>, <<-3, 0, 4>>, <<4, 0, 0>> >>
Tris == { Canon(t) : t \in { x \in (1..5) \X (1..5) \X (1..5) : Cardinality({x[1], x[2], x[3]}) = 3 } }
VARIABLES fs, fmt
Init == fs = <<>> /\ fmt \in {"obj", "off", "stl"}
F == { fs[i] : i \in DOMAIN fs }
Next == Len(fs) < 3 /\ \E t \in Tris : Sides(t) \cap Dir(F) = {} /\ fs' = Append(fs, t) /\ UNCHANGED fmt
Doc == Write(fmt, Pts, fs)
RoundTrip == LET r == Read(fmt, Doc) IN r.ok /\ r.sure /\ Same(fmt, Pts, F, r)
Cut == \A k \in 0..Len(Doc) : LET r == Read(fmt, SubSeq(Doc, 1, k))
                              IN r.ok => \A c \in Soup(r.p, r.F) : \E d \in Soup(Pts, F) : d[1] = c[1] /\ c[2] <= d[2]
=============================================================================
