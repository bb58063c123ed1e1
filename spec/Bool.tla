------------------------------- MODULE Bool -------------------------------
(***************************************************************************)
(* Union, intersection and difference of solids made of cubes, or of plane *)
(* regions made of squares, the operands moved against each other.          *)
(*                                                                          *)
(* A computation is a sequence of steps; each brings in a solid V moved by  *)
(* s and combines what there is with it.  The planes of all cells involved  *)
(* cut space into boxes, and each box is filled or not as a whole.  Lengths *)
(* are counted in half lattice units, middles of boxes in quarters.         *)
(***************************************************************************)
EXTENDS Solid
H == 2 * S
Holds(op, a, b) == CASE op = "union" -> a \/ b [] op = "intersection" -> a /\ b [] op = "difference" -> a /\ ~b [] op = "start" -> b
\* the cell, moved by s, that q lies in
Cell(q, s) == IF Len(s) = 2 THEN << (q[1] - 4 * s[1]) \div (2 * H), (q[2] - 4 * s[2]) \div (2 * H) >>
              ELSE << (q[1] - 4 * s[1]) \div (2 * H), (q[2] - 4 * s[2]) \div (2 * H), (q[3] - 4 * s[3]) \div (2 * H) >>
RECURSIVE Filled(_, _)
Filled(st, q) == IF st = << >> THEN FALSE
                 ELSE LET l == st[Len(st)] IN Holds(l.op, Filled(SubSeq(st, 1, Len(st) - 1), q), Cell(q, l.s) \in l.V)
\* where the planes across axis i cut
Cuts(st, i) == UNION { UNION { { H * v[i] + 2 * st[k].s[i], H * v[i] + H + 2 * st[k].s[i] } : v \in st[k].V } : k \in DOMAIN st }
After(a, C) == CHOOSE b \in C : b > a /\ \A x \in C : x > a => b <= x
Middles(C) == { a + After(a, C) : a \in { x \in C : \E y \in C : y > x } }
Grid(st) == [i \in DOMAIN st[1].s |-> Middles(Cuts(st, i))]
Rank(m, M) == Cardinality({ x \in M : x < m })
\* the boxes that are filled, by their places
Result(st, G) == { [i \in DOMAIN q |-> Rank(q[i], G[i])] : q \in { p \in Tuples(G, 1) : Filled(st, p) } }
\* the surface does not touch itself along an edge or at a corner, as the mesh could not hold that
Sound(st) == Clean(Result(st, Grid(st)))
\* width of the box around middle m: twice what is between m and the cut before it, measured in quarters
Width(m, C) == After((CHOOSE a \in C : 2 * a < m /\ \A x \in C : 2 * x < m => x <= a), C) - (CHOOSE a \in C : 2 * a < m /\ \A x \in C : 2 * x < m => x <= a)
RECURSIVE Mul(_, _)
Mul(f, n) == IF n = 0 THEN 1 ELSE f[n] * Mul(f, n - 1)
RECURSIVE Add(_, _)
Add(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Add(f, D \ {x})
\* the volume, or area, of what is filled
Content(st, G, W) == Add([q \in Tuples(G, 1) |-> IF Filled(st, q) THEN Mul([i \in DOMAIN q |-> W[i][q[i]]], Len(q)) ELSE 0], Tuples(G, 1))
Widths(st, G) == [i \in DOMAIN G |-> [m \in G[i] |-> Width(m, Cuts(st, i))]]
=============================================================================
