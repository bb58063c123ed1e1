------------------------------ MODULE MCCross ------------------------------
(* Laws of the lines along which two solids meet.                             *)
EXTENDS Cross
CONSTANTS N, Shifts
VARIABLES a, b, s
Cells == (0..(N - 1)) \X (0..(N - 1)) \X (0..(N - 1))
Zero == << 0, 0, 0 >>
Init == a = {} /\ b = {} /\ s \in Shifts \X Shifts \X Shifts
Next == \E v \in Cells : \/ (\A w \in a : w # v) /\ Cardinality(a) < 2 /\ a' = a \cup {v} /\ UNCHANGED << b, s >>
                         \/ (\A w \in b : w # v) /\ Cardinality(b) < 2 /\ b' = b \cup {v} /\ UNCHANGED << a, s >>
Ready == a # {} /\ b # {}
One(V, t) == [op |-> "start", V |-> V, s |-> t]
Pair == << One(a, Zero), One(b, s) >>
\* the order of the solids does not matter
Turned == Ready => Lines(Pair) = Lines(<< One(b, s), One(a, Zero) >>)
\* the pieces lie on both surfaces
Shared == Ready => \A p \in Lines(Pair) : OnSurface(a, Zero, p.at) /\ OnSurface(b, s, p.at)
\* surfaces without a common plane meet in closed lines
Ends(p) == { [p.at EXCEPT ![p.k] = p.lo], [p.at EXCEPT ![p.k] = p.hi] }
Free == \A i \in 1..3 : Planes(<< One(a, Zero) >>, i) \cap Planes(<< One(b, s) >>, i) = {}
Closed == Ready /\ Free /\ Clean(a) /\ Clean(b) => LET L == Lines(Pair) IN \A p \in L : \A e \in Ends(p) : Cardinality({ q \in L : e \in Ends(q) }) % 2 = 0
\* when only one solid reaches into the other they do meet, and solids apart do not
Reach == Ready => LET both == \E q \in Tuples(Grid(Pair), 1) : Cell(q, Zero) \in a /\ Cell(q, s) \in b
                      one == \E q \in Tuples(Grid(Pair), 1) : Cell(q, Zero) \in a /\ Cell(q, s) \notin b
                      other == \E q \in Tuples(Grid(Pair), 1) : Cell(q, Zero) \notin a /\ Cell(q, s) \in b
                  IN /\ (both /\ one /\ other /\ Free /\ Cardinality(a) = 1 /\ Cardinality(b) = 1 => Lines(Pair) # {})
                     /\ (Free /\ ~both => Lines(Pair) = {})
\* a piece is covered by itself in halves and not by one of them
Halved == Ready => \A p \in Lines(Pair) : LET l == [p.at EXCEPT ![p.k] = p.lo]
                                              h == [p.at EXCEPT ![p.k] = p.hi]
                                          IN Covered(p, { << l, p.at >>, << h, p.at >> }) /\ ~Covered(p, { << l, p.at >> }) /\ ~Covered(p, { << h, p.at >> })
=============================================================================
