-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Oriented triangle meshes as their users see them.                        *)
(*                                                                          *)
(*   m = [p, dead, F]   positions of the vertices 1..Len(p), the vertices   *)
(*                      that were retired, and the set of live triangles,   *)
(*                      each a cyclic triple of vertices written with its   *)
(*                      smallest vertex first.                              *)
(*                                                                          *)
(* Every directed edge belongs to at most one triangle.  A vertex may have  *)
(* several fans.  The half-edge structure behind this is specified in       *)
(* HalfEdge.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Wide

Rot(t) == << t[2], t[3], t[1] >>
Canon(t) == IF t[1] <= t[2] /\ t[1] <= t[3] THEN t
            ELSE IF t[2] <= t[1] /\ t[2] <= t[3] THEN Rot(t) ELSE Rot(Rot(t))
Corners(t) == { t[1], t[2], t[3] }
Sides(t) == { << t[1], t[2] >>, << t[2], t[3] >>, << t[3], t[1] >> }
Rev(e) == << e[2], e[1] >>

Dir(F) == UNION { Sides(t) : t \in F }                  \* directed edges with a triangle on their left
Edges(F) == { { e[1], e[2] } : e \in Dir(F) }
Border(F) == LET D == Dir(F) IN { Rev(e) : e \in D } \ D
Spokes(F) == LET D == Dir(F) IN D \cup { Rev(e) : e \in D }  \* both directions of every edge
Used(F) == UNION { Corners(t) : t \in F }
Star(F, v) == { t \in F : v \in Corners(t) }
Nbrs(F, v) == Used(Star(F, v)) \ {v}
LeftOf(F, e) == { t \in F : e \in Sides(t) }
Apex(F, e) == UNION { Corners(t) \ { e[1], e[2] } : t \in LeftOf(F, e) }
Proper(F) == /\ \A t \in F : t = Canon(t) /\ Cardinality(Corners(t)) = 3
             /\ Cardinality(Dir(F)) = 3 * Cardinality(F)

\* the triangles around v that can be reached from t by crossing edges at v
RECURSIVE Grow(_, _, _)
Grow(R, v, S) == LET D == { e \in Dir(S) : v \in { e[1], e[2] } }
                     N == { t \in R \ S : \E e \in Sides(t) : Rev(e) \in D }
                 IN IF N = {} THEN S ELSE Grow(R, v, S \cup N)
Fans(F, v) == LET R == Star(F, v) IN { Grow(R, v, {t}) : t \in R }
OneFan(F, v) == Cardinality(Fans(F, v)) <= 1
Manifold(F) == Proper(F) /\ \A v \in Used(F) : OneFan(F, v)
OnBorder(F, v) == \E e \in Border(Star(F, v)) : v \in { e[1], e[2] }

\* ---------------------------------------------------------------- topology
RECURSIVE Reach(_, _)
Reach(F, S) == LET N == { t \in F : Corners(t) \cap S # {} } IN IF N = {} THEN S ELSE Reach(F \ N, S \cup Used(N))
RECURSIVE Components(_)
Components(F) == IF F = {} THEN {}
                 ELSE LET S == Reach(F, Corners(CHOOSE t \in F : TRUE))
                      IN {S} \cup Components({ t \in F : Corners(t) \cap S = {} })
Euler(F) == Cardinality(Used(F)) - Cardinality(Edges(F)) + Cardinality(F)
\* in a manifold every border edge has one successor
RECURSIVE Loop(_, _)
Loop(B, e) == LET N == { x \in B : x[1] = e[2] } IN IF N = {} THEN {e} ELSE LET x == CHOOSE x \in N : TRUE IN {e} \cup Loop(B \ N, x)
RECURSIVE LoopsOf(_)
LoopsOf(B) == IF B = {} THEN {} ELSE LET S == Loop(B, CHOOSE e \in B : TRUE) IN {S} \cup LoopsOf(B \ S)
BorderLoops(F) == LoopsOf(Border(F))
Topology(F) == << Euler(F), Cardinality(Components(F)), Cardinality(BorderLoops(F)), Manifold(F) >>

\* ---------------------------------------------------------------- geometry
Vec(a, b) == [i \in DOMAIN a |-> b[i] - a[i]]
Flat2(a, b) == a[1] * b[2] - a[2] * b[1] = 0
Collinear3(a, b) == /\ a[2] * b[3] = a[3] * b[2] /\ a[3] * b[1] = a[1] * b[3] /\ a[1] * b[2] = a[2] * b[1]
FlatTri(a, b, c) == IF Len(a) = 2 THEN Flat2(Vec(a, b), Vec(a, c)) ELSE Collinear3(Vec(a, b), Vec(a, c))

Live(m) == (1..Len(m.p)) \ m.dead
At(m, q) == { v \in Live(m) : m.p[v] = q }
Halves(a, b) == \A i \in DOMAIN a : (a[i] + b[i]) % 2 = 0
Mid(a, b) == [i \in DOMAIN a |-> (a[i] + b[i]) \div 2]

\* ----------------------------------------------------------------- actions
\* Each operator gives the triangles after the action.
Addable(F, a, b, c) == Sides(<< a, b, c >>) \cap Dir(F) = {}
\* a triangle is added as given, else turned over, else not at all
AddTri(F, a, b, c) == IF Addable(F, a, b, c) THEN F \cup { Canon(<< a, b, c >>) }
                      ELSE IF Addable(F, a, c, b) THEN F \cup { Canon(<< a, c, b >>) }
                      ELSE F
RECURSIVE AddAll(_, _)
AddAll(F, ts) == IF ts = <<>> THEN F ELSE AddAll(AddTri(F, ts[1][1], ts[1][2], ts[1][3]), Tail(ts))

\* the edge from a to b, between triangles a b c and b a d, becomes c d
FlipOf(F, a, b) == LET c == CHOOSE x \in Apex(F, << a, b >>) : TRUE
                       d == CHOOSE x \in Apex(F, << b, a >>) : TRUE
                   IN << c, d >>
CanFlip(m, a, b) == /\ Apex(m.F, << a, b >>) # {} /\ Apex(m.F, << b, a >>) # {}
                    /\ LET cd == FlipOf(m.F, a, b)
                           c == cd[1]
                           d == cd[2]
                       IN /\ c # d /\ << c, d >> \notin Spokes(m.F)
                          /\ (Len(m.p[a]) = 3 => ~FlatTri(m.p[a], m.p[d], m.p[c]) /\ ~FlatTri(m.p[b], m.p[c], m.p[d]))
Flip(F, a, b) == LET cd == FlipOf(F, a, b)
                     c == cd[1]
                     d == cd[2]
                 IN (F \ { Canon(<< a, b, c >>), Canon(<< b, a, d >>) }) \cup { Canon(<< a, d, c >>), Canon(<< b, c, d >>) }

\* a new vertex w on the edge a b splits the triangles on both sides
Halve(a, b, c, w) == { Canon(<< a, w, c >>), Canon(<< w, b, c >>) }
SplitEdge(F, a, b, w) ==
  LET L == { Canon(<< a, b, c >>) : c \in Apex(F, << a, b >>) }
      R == { Canon(<< b, a, c >>) : c \in Apex(F, << b, a >>) }
  IN (F \ (L \cup R)) \cup UNION { Halve(a, b, c, w) : c \in Apex(F, << a, b >>) }
                      \cup UNION { Halve(b, a, c, w) : c \in Apex(F, << b, a >>) }
SplitFace(F, t, w) == (F \ {t}) \cup { Canon(<< t[1], t[2], w >>), Canon(<< t[2], t[3], w >>), Canon(<< t[3], t[1], w >>) }

\* v is merged into u
Merge(t, u, v) == Canon([i \in 1..3 |-> IF t[i] = v THEN u ELSE t[i]])
Collapse(F, u, v) == { Merge(t, u, v) : t \in { x \in F : ~({u, v} \subseteq Corners(x)) } }
Opposite(F, u, v) == Apex(F, << u, v >>) \cup Apex(F, << v, u >>)
\* The link condition for edges of surfaces with border: the ends share no
\* neighbour but the opposite corners, and an inner edge between two border
\* vertices has further triangles on one side at most.
Link(F, u, v) == (Nbrs(F, u) \cap Nbrs(F, v)) = Opposite(F, u, v)
Inner(F, u, v) == LET D == Dir(Star(F, u)) IN << u, v >> \in D /\ << v, u >> \in D
GoesOn(F, u, v, e) == \A c \in Apex(F, e) : Inner(F, u, c) \/ Inner(F, v, c)
BorderSafe(F, u, v) ==
  ~(/\ Inner(F, u, v) /\ OnBorder(F, u) /\ OnBorder(F, v)
    /\ GoesOn(F, u, v, << u, v >>) /\ GoesOn(F, u, v, << v, u >>))
\* a collapse consumes the component when no triangle has only one of its ends
Consumes(F, u, v) == \A t \in Star(F, u) \cup Star(F, v) : {u, v} \subseteq Corners(t)
\* two triangles over one edge must not share their third corner
NoPillow(F, u, v) == Inner(F, u, v) => Apex(F, << u, v >>) # Apex(F, << v, u >>)
\* triangles on the same two corners at both ends must not come to lie on the same three
NoShell(F, u, v) == \A s \in Star(F, u), t \in Star(F, v) : (Corners(s) \ {u}) # (Corners(t) \ {v})
NormalOf(a, b, c) ==
  LET x == Vec(a, b)
      y == Vec(a, c)
  IN << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >>
\* the normals n and m are more than a right angle apart
Opposed(n, m) ==
  LET sg == { IF (n[i] > 0 /\ m[i] > 0) \/ (n[i] < 0 /\ m[i] < 0) THEN 1 ELSE IF n[i] = 0 \/ m[i] = 0 THEN 0 ELSE -1 : i \in 1..3 }
  IN -1 \in sg /\ (1 \notin sg \/ WSgn(WAdd(WAdd(WMul(WOf(n[1]), WOf(m[1])), WMul(WOf(n[2]), WOf(m[2]))), WMul(WOf(n[3]), WOf(m[3])))) < 0)
\* merging the ends at q; a caller may spare the border and may let triangles turn over
CanCollapseTo(m, u, v, q, spare, turn) ==
  /\ << u, v >> \in Spokes(m.F)
  /\ spare => Inner(m.F, u, v)
  /\ Link(m.F, u, v) /\ BorderSafe(m.F, u, v) /\ NoPillow(m.F, u, v) /\ NoShell(m.F, u, v)
  /\ LET P(x) == IF x \in {u, v} THEN q ELSE m.p[x]
     IN \A t \in Star(m.F, u) \cup Star(m.F, v) :
          \/ {u, v} \subseteq Corners(t)
          \/ /\ ~FlatTri(P(t[1]), P(t[2]), P(t[3]))
             /\ Len(q) = 3 /\ ~turn => ~Opposed(NormalOf(m.p[t[1]], m.p[t[2]], m.p[t[3]]), NormalOf(P(t[1]), P(t[2]), P(t[3])))
CanCollapse(m, u, v) == CanCollapseTo(m, u, v, Mid(m.p[u], m.p[v]), FALSE, FALSE)
CollapseTo(m, u, v, q) == [m EXCEPT !.F = Collapse(m.F, u, v), !.dead = @ \cup {v}, !.p[u] = q]
CollapseMesh(m, u, v) == CollapseTo(m, u, v, Mid(m.p[u], m.p[v]))
=============================================================================
