------------------------------- MODULE MCBool -------------------------------
(* Laws of combined solids: contents add up, and the order of operands and    *)
(* the way a result is reached do not matter where they should not.           *)
EXTENDS Bool
CONSTANTS N, Shifts
VARIABLES a, b, s
Cells == (0..(N - 1)) \X (0..(N - 1)) \X (0..(N - 1))
Zero == << 0, 0, 0 >>
Init == a = {} /\ b = {} /\ s \in Shifts \X Shifts \X Shifts
Next == \E v \in Cells : \/ (\A w \in a : w # v) /\ Cardinality(a) < 2 /\ a' = a \cup {v} /\ UNCHANGED << b, s >>
                         \/ (\A w \in b : w # v) /\ Cardinality(b) < 2 /\ b' = b \cup {v} /\ UNCHANGED << a, s >>
Two(op) == << [op |-> "start", V |-> a, s |-> Zero], [op |-> op, V |-> b, s |-> s] >>
Vol(st) == LET G == Grid(st) IN Content(st, G, Widths(st, G))
Max(x, y) == IF x < y THEN y ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
Overlap(v, w, i) == Max(0, H - Abs(H * v[i] - H * w[i] - 2 * s[i]))
Common == Add([p \in a \X b |-> Overlap(p[1], p[2], 1) * Overlap(p[1], p[2], 2) * Overlap(p[1], p[2], 3)], a \X b)
Ready == a # {} /\ b # {}
\* what is common is the sum over the pairs of cells
Pairs == Ready => Vol(Two("intersection")) = Common
Sums == Ready => /\ Vol(Two("union")) + Vol(Two("intersection")) = H * H * H * (Cardinality(a) + Cardinality(b))
                 /\ Vol(Two("difference")) + Vol(Two("intersection")) = H * H * H * Cardinality(a)
Other(op) == << [op |-> "start", V |-> b, s |-> s], [op |-> op, V |-> a, s |-> Zero] >>
Turned == Ready => \A op \in {"union", "intersection"} : LET G == Grid(Two(op)) IN \A q \in Tuples(G, 1) : Filled(Two(op), q) = Filled(Other(op), q)
\* taking away and adding again fills what the union fills
Again == Ready => LET st == Append(Two("difference"), [op |-> "union", V |-> b, s |-> s])
                      G == Grid(st)
                  IN \A q \in Tuples(G, 1) : Filled(st, q) = Filled(Two("union"), q)
\* one cell's content is that of a cube
Unit == Ready => Vol(<< [op |-> "start", V |-> a, s |-> s] >>) = H * H * H * Cardinality(a)
=============================================================================
