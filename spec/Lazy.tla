-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* Programs over lazily evaluated exact numbers: registers are created by  *)
(* leaves and arithmetic, and looked at by queries, in any order.  A query *)
(* never changes a value, and its answer depends only on the values, not   *)
(* on what has been computed or looked at before.                          *)
(***************************************************************************)
EXTENDS Field, TLC, Json

Leaves == { Val(<<1>>, <<1>>), Val(<<-1>>, <<1>>), Val(<<>>, <<1>>), Val(<<2>>, <<1>>), Val(<<7>>, <<1>>),
            Val(<<1>>, <<3>>), Val(<<-5>>, <<7>>),
            Val(<<0, 1>>, <<1>>), Val(<<0, -1>>, <<1>>), Val(<<0, 0, 1>>, <<1>>),
            Val(<<1, 1>>, <<1>>), Val(<<1, -1>>, <<1>>), Val(<<1, 0, 1>>, <<1>>), Val(<<-1, 3>>, <<1>>),
            Val(<<1, 1>>, <<3>>), Val(<<1>>, <<1, 1>>), Val(<<0, 1>>, <<3>>), Val(<<1>>, <<0, 1>>) }

Queries == {"sgn", "cmp", "force", "iv", "hash"}

CONSTANT MaxLen
VARIABLES regs, hist, done
vars == <<regs, hist, done>>
Init == regs = <<>> /\ hist = <<>> /\ done = FALSE

Rec(o, i, j, k, v) == [o |-> o, i |-> i, j |-> j, k |-> k, n |-> v.n, d |-> v.d]
Push(r, v) == regs' = Append(regs, v) /\ hist' = Append(hist, r) /\ UNCHANGED done

NewLeaf == \E v \in {RandomElement(Leaves)} : Push(Rec("leaf", 0, 0, 0, v), v)
DoBinary ==
  /\ Len(regs) >= 2
  /\ \E o \in {RandomElement(Binary)}, i \in {RandomElement(1..Len(regs))}, j \in {RandomElement(1..Len(regs))} :
       /\ Defined(o, regs[i], regs[j])
       /\ LET v == Apply(o, regs[i], regs[j]) IN Small(v) /\ Push(Rec(o, i, j, 0, v), v)
DoUnary ==
  /\ Len(regs) >= 1
  /\ \E o \in {RandomElement(Unary)}, i \in {RandomElement(1..Len(regs))} :
       LET v == Apply1(o, regs[i]) IN Push(Rec(o, i, 0, 0, v), v)
\* k-fold repeated addition, long enough to reach any depth limit
DoRepeat ==
  /\ Len(regs) >= 2 /\ RandomElement(1..6) = 1
  /\ \E i \in {RandomElement(1..Len(regs))}, j \in {RandomElement(1..Len(regs))}, k \in {RandomElement({3, 40, 1100})} :
       LET v == VAdd(regs[i], VTimes(k, regs[j])) IN Small(v) /\ Push(Rec("rep", i, j, k, v), v)
DoQuery ==
  /\ Len(regs) >= 1
  /\ \E o \in {RandomElement(Queries)}, i \in {RandomElement(1..Len(regs))}, j \in {RandomElement(1..Len(regs))} :
       /\ hist' = Append(hist, Rec(o, i, j, 0, VInt(0))) /\ UNCHANGED <<regs, done>>
\* biased towards cancellation: subtract two registers that differ by an infinitesimal
DoCancel ==
  /\ Len(regs) >= 3
  /\ \E o \in {"-"}, i \in {RandomElement(1..Len(regs))} :
       LET js == { j \in 1..Len(regs) : j # i /\ VSgn(regs[i]) # 0
                     /\ Order(VSub(regs[i], regs[j]).n \o <<1>>) > Order(regs[i].n) } IN
       /\ js # {}
       /\ \E j \in {RandomElement(js)} :
            LET v == VSub(regs[i], regs[j]) IN Small(v) /\ Push(Rec("-", i, j, 0, v), v)
Finish == Len(hist) >= MaxLen /\ ~done /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([ops |-> hist])) /\ UNCHANGED <<regs, hist>>
Next == IF Len(hist) >= MaxLen THEN Finish
        ELSE IF Len(regs) < 2 THEN NewLeaf
        ELSE NewLeaf \/ DoBinary \/ DoUnary \/ DoRepeat \/ DoQuery \/ DoCancel \/ DoBinary
=============================================================================
