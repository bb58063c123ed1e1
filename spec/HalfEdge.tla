------------------------------ MODULE HalfEdge ------------------------------
(***************************************************************************)
(* The half-edge structure that represents a mesh, as it is laid out:       *)
(*                                                                          *)
(*   r = [v, h, f, e, p]                                                   *)
(*   v[i] = <<outgoing half-edge or 0, 1 if retired>>                       *)
(*   h[i] = << >> if retired, else <<head, face or 0, next, prev, twin>>    *)
(*   f[i] = a half-edge of the face, 0 if retired                           *)
(*   e    = the edge index, a set of <<tail, head, half-edge>>              *)
(*   p    = the positions of the vertices                                   *)
(*                                                                          *)
(* References that lead nowhere are written as -1.                          *)
(***************************************************************************)
EXTENDS Mesh

HE(r) == { i \in DOMAIN r.h : r.h[i] # << >> }
To(r, i) == r.h[i][1]
FaceOf(r, i) == r.h[i][2]
Nx(r, i) == r.h[i][3]
Pv(r, i) == r.h[i][4]
Tw(r, i) == r.h[i][5]
From(r, i) == To(r, Tw(r, i))

RefsOk(r) ==
  LET H == HE(r) IN
  /\ \A i \in H : /\ To(r, i) \in DOMAIN r.v /\ r.v[To(r, i)][2] = 0
                  /\ Nx(r, i) \in H /\ Pv(r, i) \in H /\ Tw(r, i) \in H
                  /\ FaceOf(r, i) = 0 \/ (FaceOf(r, i) \in DOMAIN r.f /\ r.f[FaceOf(r, i)] # 0)
  /\ \A k \in DOMAIN r.f : r.f[k] = 0 \/ r.f[k] \in H
  /\ \A k \in DOMAIN r.v : r.v[k][2] = 1 \/ r.v[k][1] = 0 \/ r.v[k][1] \in H

Shape(r) ==
  LET H == HE(r)
      LF == { k \in DOMAIN r.f : r.f[k] # 0 }
  IN IF ~RefsOk(r) THEN {"wf-ref"} ELSE
  (IF \A i \in H : Pv(r, Nx(r, i)) = i /\ Nx(r, Pv(r, i)) = i THEN {} ELSE {"wf-next"})
  \cup (IF \A i \in H : Tw(r, i) # i /\ Tw(r, Tw(r, i)) = i THEN {} ELSE {"wf-twin"})
  \cup (IF \A i \in H : To(r, Pv(r, i)) = From(r, i) /\ To(r, i) # From(r, i) THEN {} ELSE {"wf-origin"})
  \cup (IF \A i \in H : FaceOf(r, Nx(r, i)) = FaceOf(r, i) THEN {} ELSE {"wf-side"})
  \cup (IF \A k \in LF : /\ FaceOf(r, r.f[k]) = k
                         /\ Nx(r, Nx(r, Nx(r, r.f[k]))) = r.f[k]
                         /\ Cardinality({ To(r, r.f[k]), To(r, Nx(r, r.f[k])), To(r, Nx(r, Nx(r, r.f[k]))) }) = 3
        THEN {} ELSE {"wf-face"})
  \cup (IF Cardinality({ i \in H : FaceOf(r, i) # 0 }) = 3 * Cardinality(LF) THEN {} ELSE {"wf-face"})
  \cup (IF \A i \in H : FaceOf(r, i) # 0 \/ FaceOf(r, Tw(r, i)) # 0 THEN {} ELSE {"wf-stray"})
  \cup (IF Cardinality({ << From(r, i), To(r, i) >> : i \in H }) = Cardinality(H) THEN {} ELSE {"wf-double"})
  \cup (LET T == { From(r, i) : i \in H } IN
        IF \A k \in DOMAIN r.v : r.v[k][2] = 1 \/
              (IF r.v[k][1] = 0 THEN k \notin T ELSE From(r, r.v[k][1]) = k)
        THEN {} ELSE {"wf-vertex"})
  \cup (IF r.e = { << From(r, i), To(r, i), i >> : i \in H } THEN {} ELSE {"wf-index"})

\* the triangles the structure stands for
TriAt(r, k) == LET i == r.f[k] IN Canon(<< To(r, Pv(r, i)), To(r, i), To(r, Nx(r, i)) >>)
Triangles(r) == { TriAt(r, k) : k \in { x \in DOMAIN r.f : r.f[x] # 0 } }
Retired(r) == { k \in DOMAIN r.v : r.v[k][2] = 1 }
=============================================================================
