------------------------------- MODULE Solid -------------------------------
(***************************************************************************)
(* Solids made of cubes.  A solid is a set of cells << i, j, k >>; cell c   *)
(* is the cube from S * c to S * c + S.  What is inside, outside or on the  *)
(* surface is read off the cells, without any rays, whatever the shape:     *)
(* tunnels, cavities and separate pieces included.  The surface is two      *)
(* triangles for each square between a cell and one that is missing.        *)
(* Plane regions are made of squares in the same way.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
S == 12
RECURSIVE Tuples(_, _)
\* the tuples that take their k-th part from c[k]
Tuples(c, k) == IF k > Len(c) THEN { <<>> } ELSE { << x >> \o t : x \in c[k], t \in Tuples(c, k + 1) }
\* the cells whose closed cube holds q
Touching(q) == Tuples([a \in DOMAIN q |-> IF q[a] % S = 0 THEN { q[a] \div S - 1, q[a] \div S } ELSE { q[a] \div S }], 1)
Within(V, q) == LET t == Touching(q) IN IF t \subseteq V THEN "in" ELSE IF t \cap V = {} THEN "out" ELSE "on"

Step(v, a, d) == [v EXCEPT ![a] = @ + d]
Sides(V) == { s \in V \X (1..3) \X {-1, 1} : Step(s[1], s[2], s[3]) \notin V }
\* the corners of a side, counter-clockwise seen from outside
Corners(s) ==
  LET a == s[2]
      b == (a % 3) + 1
      c == (b % 3) + 1
      At(x, y) == [i \in 1..3 |-> S * (s[1][i] + IF i = a THEN (IF s[3] = 1 THEN 1 ELSE 0) ELSE IF i = b THEN x ELSE y)]
  IN IF s[3] = 1 THEN << At(0, 0), At(1, 0), At(1, 1), At(0, 1) >> ELSE << At(0, 0), At(0, 1), At(1, 1), At(1, 0) >>
\* cut along one diagonal or the other
Halves(q, d) == IF d = 0 THEN { << q[1], q[2], q[3] >>, << q[1], q[3], q[4] >> } ELSE { << q[2], q[3], q[4] >>, << q[2], q[4], q[1] >> }
Style(s, d) == IF d < 2 THEN d ELSE (s[1][1] + s[1][2] + s[1][3] + s[2] + d * s[1][s[2]]) % 2
Surface(V, d) == UNION { Halves(Corners(s), Style(s, d)) : s \in Sides(V) }

\* a plane region is filled, not bordered
Square(v) == << << S * v[1], S * v[2] >>, << S * v[1] + S, S * v[2] >>, << S * v[1] + S, S * v[2] + S >>, << S * v[1], S * v[2] + S >> >>
Fill(V, d) == UNION { Halves(Square(v), IF d < 2 THEN d ELSE (v[1] + v[2]) % 2) : v \in V }

\* cells around a corner hang together over common sides, filled ones and others
Adjacent(u, v) == \E a \in DOMAIN u : \E d \in {-1, 1} : Step(u, a, d) = v
RECURSIVE Spread(_, _)
Spread(A, B) == LET n == { v \in B \ A : \E u \in A : Adjacent(u, v) } IN IF n = {} THEN A ELSE Spread(A \cup n, B)
Together(A) == A = {} \/ Spread({ CHOOSE v \in A : TRUE }, A) = A
Scale(v) == [i \in DOMAIN v |-> S * v[i]]
Near(V) == UNION { Tuples([i \in DOMAIN v |-> { v[i], v[i] + 1 }], 1) : v \in V }
\* the surface does not touch itself
Clean(V) == \A x \in Near(V) : LET t == Touching(Scale(x)) IN Together(t \cap V) /\ Together(t \ V)

\* --------------------------------------------------------------- rays
Vec(a, b) == [i \in DOMAIN a |-> b[i] - a[i]]
Arrow(a, b) == << b[1] - a[1], b[2] - a[2], b[3] - a[3] >>
Cross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
\* where o + t * d meets the plane of the triangle: [n, t, u, v], all over n, at corner 1 weight n - u - v
Meet(o, d, t) ==
  LET e1 == Arrow(t[1], t[2])
      e2 == Arrow(t[1], t[3])
      p == Cross(d, e2)
      n == Dot(e1, p)
      s == Arrow(t[1], o)
      q == Cross(s, e1)
      w == [n |-> n, t |-> Dot(e2, q), u |-> Dot(s, p), v |-> Dot(d, q)]
  IN IF n < 0 THEN [n |-> -n, t |-> -w.t, u |-> -w.u, v |-> -w.v] ELSE w
Hits(m) == m.n > 0 /\ m.t >= 0 /\ m.u >= 0 /\ m.v >= 0 /\ m.u + m.v <= m.n
Inner(m) == m.n > 0 /\ m.u > 0 /\ m.v > 0 /\ m.u + m.v < m.n
\* no triangle is met at its border, so that crossings can be counted
Generic(o, d, T) == \A t \in T : LET m == Meet(o, d, t) IN Hits(m) => Inner(m)
Odd(o, d, T) == Cardinality({ t \in T : Hits(Meet(o, d, t)) }) % 2 = 1
=============================================================================
