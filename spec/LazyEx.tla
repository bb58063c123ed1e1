------------------------------- MODULE LazyEx -------------------------------
(* Every program  (a o b) o' c  over a set of leaves close to each other,   *)
(* thinned by a seeded slice: all the ways two values can nearly cancel.    *)
EXTENDS Field, TLC, Json, IOUtils
CONSTANT Slice
E(n, d) == Val(n, d)
Leaves == << E(<<1>>, <<1>>), E(<<1, 1>>, <<1>>), E(<<1, -1>>, <<1>>), E(<<1, 2>>, <<1>>), E(<<1>>, <<1, 1>>),
             E(<<0, 1>>, <<1>>), E(<<0, -1>>, <<1>>), E(<<0, 0, 1>>, <<1>>), E(<<0, 0, -1>>, <<1>>), E(<<1>>, <<3>>), E(<<1, 1>>, <<3>>),
             E(<<3>>, <<1>>), E(<<-1>>, <<1>>), E(<<0, 1>>, <<3>>), E(<<>>, <<1>>), E(<<2>>, <<1>>) >>
Ops == << "+", "-", "*", "/" >>
VARIABLES pc, a, b, c, o1, o2
vars == <<pc, a, b, c, o1, o2>>
N == Len(Leaves)
Init == pc = 0 /\ a = 0 /\ b = 0 /\ c = 0 /\ o1 = 0 /\ o2 = 0
First == pc = 0 /\ a' \in 1..N /\ b' \in 1..N /\ o1' \in 1..4 /\ pc' = 1 /\ UNCHANGED <<c, o2>>
         /\ Defined(Ops[o1'], Leaves[a'], Leaves[b'])
V1 == Apply(Ops[o1], Leaves[a], Leaves[b])
Seed == atoi(IOEnv.GEN_SEED)
Pick(x, y) == (a * 31 + b * 17 + x * 7 + o1 * 5 + y * 3 + Seed) % Slice = 0
Second == /\ pc = 1 /\ c' \in 1..N /\ o2' \in 1..4 /\ Pick(c', o2') /\ pc' = 2 /\ UNCHANGED <<a, b, o1>>
          /\ Defined(Ops[o2'], V1, Leaves[c'])
          /\ LET l(i) == [o |-> "leaf", i |-> 0, j |-> 0, k |-> 0, n |-> Leaves[i].n, d |-> Leaves[i].d]
                 v2 == Apply(Ops[o2'], V1, Leaves[c'])
                 op(o, i, j, v) == [o |-> o, i |-> i, j |-> j, k |-> 0, n |-> v.n, d |-> v.d]
             IN PrintT("BEHAVIOUR " \o ToJson([ops |-> << l(a), l(b), op(Ops[o1], 1, 2, V1), l(c'), op(Ops[o2'], 3, 4, v2), op("cmp", 3, 4, VInt(0)), op("sgn", 5, 1, VInt(0)) >>]))
Next == First \/ Second
=============================================================================
