------------------------------- MODULE Cross -------------------------------
(***************************************************************************)
(* Where the surfaces of two solids made of cubes meet, one moved by s.     *)
(* Positions are counted in quarter lattice units.  The planes of all cells *)
(* cut every line along which surfaces can meet into pieces; along a piece  *)
(* nothing changes, so its middle tells for all of it.                      *)
(***************************************************************************)
EXTENDS Bool
W == 2 * H
Off(s) == << 4 * s[1], 4 * s[2], 4 * s[3] >>
\* the cells, moved by s, whose closed cube holds p
Around(p, s) == LET o == Off(s) IN Tuples([i \in 1..3 |-> LET x == p[i] - o[i] IN IF x % W = 0 THEN { x \div W - 1, x \div W } ELSE { x \div W }], 1)
OnSurface(V, s, p) == LET t == Around(p, s) IN t \cap V # {} /\ ~(t \subseteq V)
\* the axes that sides of the solid at p lie across
Across(V, s, p) ==
  LET t == Around(p, s)
  IN { i \in 1..3 : (p[i] - 4 * s[i]) % W = 0 /\ \E v \in t : v \in V /\ \E d \in {-1, 1} : Step(v, i, d) \in t /\ Step(v, i, d) \notin V }
\* ------------------------------------------------------------ lines to report
Planes(st, i) == { 2 * x : x \in Cuts(st, i) }
\* a piece of a line: along axis k from lo to hi, through at
Pieces(st) ==
  UNION { LET i == (k % 3) + 1
              j == (i % 3) + 1
              C == Planes(st, k)
          IN { [k |-> k, lo |-> a, hi |-> After(a, C), at |-> [n \in 1..3 |-> IF n = i THEN x ELSE IF n = j THEN y ELSE (a + After(a, C)) \div 2]]
               : a \in { c \in C : \E e \in C : e > c }, x \in Planes(st, i), y \in Planes(st, j) } : k \in 1..3 }
\* both surfaces hold the piece, and they do not merely coincide around it
Meets(st, p) ==
  LET a == Across(st[1].V, st[1].s, p.at)
      b == Across(st[2].V, st[2].s, p.at)
  IN a # {} /\ b # {} /\ Cardinality(a \cup b) = 2
Lines(st) == { p \in Pieces(st) : Meets(st, p) }
\* segments << a, b >> cover the piece
Between(p, g) ==
  LET on == \A n \in 1..3 : n = p.k \/ (g[1][n] = p.at[n] /\ g[2][n] = p.at[n])
      l == IF g[1][p.k] < g[2][p.k] THEN g[1][p.k] ELSE g[2][p.k]
      h == IF g[1][p.k] < g[2][p.k] THEN g[2][p.k] ELSE g[1][p.k]
  IN IF on /\ l < h THEN { << l, h >> } ELSE {}
RECURSIVE Reached(_, _)
Reached(x, R) == LET n == { r \in R : r[1] <= x /\ r[2] > x } IN IF n = {} THEN x ELSE LET r == CHOOSE r \in n : \A q \in n : q[2] <= r[2] IN Reached(r[2], R)
Covered(p, G) == Reached(p.lo, UNION { Between(p, g) : g \in G }) >= p.hi
\* --------------------------------------------------------------- triangles
\* t lies across one axis; p is in it, border included
Flat(t) == CHOOSE i \in 1..3 : t[1][i] = t[2][i] /\ t[2][i] = t[3][i]
InTriangle(t, p) ==
  /\ \E i \in 1..3 : t[1][i] = t[2][i] /\ t[2][i] = t[3][i]
  /\ LET i == Flat(t)
         n == Cross(Arrow(t[1], t[2]), Arrow(t[1], t[3]))[i]
         side(a, b) == Cross(Arrow(a, b), Arrow(a, p))[i]
     IN p[i] = t[1][i] /\ n # 0 /\ \A j \in 1..3 : LET x == side(t[j], t[(j % 3) + 1]) IN IF n > 0 THEN x >= 0 ELSE x <= 0
\* weights << n, d >> with d > 0 of corners give p
Weigh(c, w, p) ==
  LET d == IF Len(w) = 1 THEN w[1][2] ELSE IF Len(w) = 2 THEN w[1][2] * w[2][2] ELSE w[1][2] * w[2][2] * w[3][2]
      f == [j \in DOMAIN w |-> w[j][1] * (d \div w[j][2])]
      sum(g) == IF Len(w) = 1 THEN g[1] ELSE IF Len(w) = 2 THEN g[1] + g[2] ELSE g[1] + g[2] + g[3]
  IN /\ \A j \in DOMAIN w : w[j][1] >= 0
     /\ sum(f) = d
     /\ \A n \in 1..3 : sum([j \in DOMAIN w |-> f[j] * c[j][n]]) = d * p[n]
=============================================================================
