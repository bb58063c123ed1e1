------------------------------ MODULE MCBoxes ------------------------------
(* Laws of boxes and of the abstract box tree, over all short histories.    *)
EXTENDS Boxes
CONSTANTS Side, Depth, Wide
Pts == { <<x, y>> : x \in 0..Side, y \in 0..Side }
AllBoxes == { << p, q >> \in Pts \X Pts : p[1] <= q[1] /\ p[2] <= q[2] }
Data == {1, 2}
Few == { b \in AllBoxes : (IF Wide THEN b[1][1] = 0 ELSE b[1] = <<0, 0>>) \/ b[2] = <<Side, Side>> }
VARIABLES tree, n
Init == \E b \in Few : tree = << Entry(b, 1) >> /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E b \in Few, d \in Data : tree' = Insert(tree, b, d)
           \/ \E d \in Data : tree' = Invalidate(tree, d)
           \/ LiveSet(tree) # {} /\ tree' = Compact(tree)
\* box algebra, on the boxes present and every query
Algebra == \A i \in DOMAIN tree : \A q \in AllBoxes : LET a == tree[i].b IN
  /\ Meets(a, q) <=> Meets(q, a)
  /\ Meets(a, q) <=> \E p \in Pts : Covers(a, <<p, p>>) /\ Covers(q, <<p, p>>)
  /\ Covers(Join(a, q), a) /\ Covers(Join(a, q), q) /\ Join(a, q) = Join(q, a)
  /\ Covers(a, q) => Meets(a, q)
  /\ Span(a[1], a[2]) = a /\ Span(a[2], a[1]) = a
\* live answers are answers, and compaction changes none of them
Tree == \A q \in AllBoxes : \A d \in Data :
  /\ HitsLive(tree, q, d) \subseteq Hits(tree, q, d)
  /\ Cardinality(HitsLive(tree, q, d)) = Cardinality(Hits(Compact(tree), q, d))
  /\ HitsLive(Invalidate(tree, d), q, d) = {}
  /\ \A e \in Data \ {d} : HitsLive(Invalidate(tree, d), q, e) = HitsLive(tree, q, e)
Rebuild == ~NeedsRebuild(Compact(tree))
=============================================================================
