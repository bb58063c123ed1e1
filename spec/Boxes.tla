------------------------------- MODULE Boxes -------------------------------
(***************************************************************************)
(* Axis-aligned boxes, and the box tree as what its users see: a collection *)
(* of entries [b, d, v] (box, payload, live?) with insertion, invalidation, *)
(* compaction and overlap queries.  How the tree is arranged is invisible.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* a box is << lo, hi >>, two points of the same dimension
Axes(b) == DOMAIN b[1]
IsBox(b) == \A i \in Axes(b) : b[1][i] <= b[2][i]
Meets(a, b) == \A i \in Axes(a) : a[1][i] <= b[2][i] /\ b[1][i] <= a[2][i]
Mn(x, y) == IF x <= y THEN x ELSE y
Mx(x, y) == IF x <= y THEN y ELSE x
Join(a, b) == << [i \in Axes(a) |-> Mn(a[1][i], b[1][i])], [i \in Axes(a) |-> Mx(a[2][i], b[2][i])] >>
Span(p, q) == << [i \in DOMAIN p |-> Mn(p[i], q[i])], [i \in DOMAIN p |-> Mx(p[i], q[i])] >>
Grow(b, k) == << [i \in Axes(b) |-> b[1][i] - k], [i \in Axes(b) |-> b[2][i] + k] >>
Covers(a, b) == \A i \in Axes(a) : a[1][i] <= b[1][i] /\ b[2][i] <= a[2][i]
Extent(b, i) == b[2][i] - b[1][i]
\* the first axis of largest extent
LongestAxis(b) == CHOOSE i \in Axes(b) :
                    /\ \A j \in Axes(b) : Extent(b, j) <= Extent(b, i)
                    /\ \A j \in 1..(i - 1) : Extent(b, j) < Extent(b, i)

\* ----------------------------------------------------------------- the tree
Entry(b, d) == [b |-> b, d |-> d, v |-> TRUE]
Insert(t, b, d) == Append(t, Entry(b, d))
Live(t, d) == { i \in DOMAIN t : t[i].v /\ t[i].d = d }
Invalidate(t, d) == [i \in DOMAIN t |-> IF t[i].d = d THEN [t[i] EXCEPT !.v = FALSE] ELSE t[i]]
LiveSet(t) == { i \in DOMAIN t : t[i].v }
Alive(e) == e.v
Compact(t) == SelectSeq(t, Alive)

\* answers, as numbers of entries per payload
Hits(t, q, d) == { i \in DOMAIN t : t[i].d = d /\ Meets(t[i].b, q) }
HitsLive(t, q, d) == { i \in DOMAIN t : t[i].v /\ t[i].d = d /\ Meets(t[i].b, q) }
NeedsRebuild(t) == 2 * Cardinality(LiveSet(t)) < Len(t)
=============================================================================
