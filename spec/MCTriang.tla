------------------------------ MODULE MCTriang ------------------------------
(* Exchanging diagonals leads from any triangulation to every other one: all *)
(* of them are valid, every set of constraints that do not cross is met by   *)
(* one of them, and one without a bad edge is Delaunay.                      *)
EXTENDS Triang, TLC
CONSTANTS W, H, N
VARIABLES p, T
Grid == { << x, y >> : x \in 0..(W - 1), y \in 0..(H - 1) }
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN << >> ELSE LET q == CHOOSE q \in S : \A r \in S : q[1] < r[1] \/ (q[1] = r[1] /\ q[2] <= r[2]) IN << q >> \o Listed(S \ {q})
\* sweeping from left to right, every point is joined to what it sees
Seen(ps, S, k) == { e \in Outer(S) : Orient2(ps[e[1]], ps[e[2]], ps[k]) < 0 }
RECURSIVE Sweep(_, _, _)
Sweep(ps, S, k) ==
  IF k > Len(ps) THEN S
  ELSE IF S = {} THEN
         \* the first point off the line of the ones before it
         IF \A i, j \in 1..k : Orient2(ps[i], ps[j], ps[k]) = 0 THEN Sweep(ps, S, k + 1)
         ELSE Sweep(ps, { TCanon(IF Orient2(ps[i], ps[i + 1], ps[k]) > 0 THEN << i, i + 1, k >> ELSE << i + 1, i, k >>) : i \in 1..(k - 2) }, k + 1)
  ELSE Sweep(ps, S \cup { TCanon(<< e[2], e[1], k >>) : e \in Seen(ps, S, k) }, k + 1)
Init == \E S \in SUBSET Grid : Cardinality(S) = N /\ p = Listed(S) /\ ~Flat(p) /\ T = Sweep(p, {}, 1)
Next == \E e \in TDir(T) : e[1] < e[2] /\ T' \in FlipTo(p, T, e) /\ UNCHANGED p
Good == Valid(p, T)
LocallyDelaunay == \A e \in TDir(T) : \A d \in Apexes(T, << e[2], e[1] >>) : \A c \in Apexes(T, e) :
                     InCircle(p[e[1]], p[e[2]], p[c], p[d]) <= 0
LocalIsGlobal == LocallyDelaunay <=> Delaunay(p, T)
\* a pair of points whose segment crosses no edge is an edge already
Pairs == { e \in (1..N) \X (1..N) : e[1] < e[2] }
Tight == \A x \in Pairs : (\A e \in TDir(T) : ~Crossing(p[x[1]], p[x[2]], p[e[1]], p[e[2]])) => Joined(p, T, p[x[1]], p[x[2]])
\* and otherwise one of the edges it crosses can be exchanged
CrossedBy(x) == { e \in TDir(T) : Crossing(p[x[1]], p[x[2]], p[e[1]], p[e[2]]) }
Progress == \A x \in Pairs : CrossedBy(x) # {} => \E e \in CrossedBy(x) : FlipTo(p, T, e) # {}
\* Euler: the number of triangles depends on the points alone
Count == Cardinality(T) = 2 * N - 2 - Cardinality(Outer(T))
=============================================================================
