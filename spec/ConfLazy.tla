------------------------------ MODULE ConfLazy ------------------------------
(* Conformance of recorded number programs with the ordered field Q(eps). *)
EXTENDS Field, Json, IOUtils, TLC

Has(c, f) == f \in DOMAIN c

IsOp(o) == o \in Binary \cup Unary \cup {"leaf", "rep"}
ValueOf(op, regs) ==
  CASE op.o = "leaf" -> [n |-> op.n, d |-> op.d]
    [] op.o \in Binary -> Apply(op.o, regs[op.i], regs[op.j])
    [] op.o \in Unary -> Apply1(op.o, regs[op.i])
    [] op.o = "rep" -> VAdd(regs[op.i], VTimes(op.k, regs[op.j]))

Sgn1(b) == IF b THEN 1 ELSE 0
QueryErrs(op, r, regs) ==
  CASE op.o = "sgn" -> LET s == VSgn(regs[op.i]) IN
         IF r = << s, Sgn1(s = 0), Sgn1(s > 0), Sgn1(s < 0), Sgn1(s >= 0), Sgn1(s <= 0), s, 1 >> THEN {} ELSE {"sign"}
    [] op.o = "cmp" -> LET s == VCmp(regs[op.i], regs[op.j]) IN
         \* two ways of comparing, ==, <, <=, >, >=, the quick answer if there is one, and the exact one
         IF r[8] \in {s, 9} /\ r = << s, s, Sgn1(s = 0), Sgn1(s < 0), Sgn1(s <= 0), Sgn1(s > 0), Sgn1(s >= 0), r[8], s >> THEN {} ELSE {"compare"}
    [] op.o = "hash" -> IF VEq(regs[op.i], regs[op.j]) => r = <<1>> THEN {} ELSE {"hash"}
    [] op.o = "force" -> IF r = <<1>> THEN {} ELSE {"exact"}
    [] op.o = "iv" -> IF r = <<1>> THEN {} ELSE {"interval"}

RECURSIVE Walk(_, _, _, _)
Walk(c, k, regs, errs) ==
  IF k > Len(c.ops) THEN
     errs \cup
     (IF \A i \in DOMAIN regs : c.fin[i] = << VSgn(regs[i]), 1 >> THEN {} ELSE {"final"})
  ELSE LET op == c.ops[k] IN
       IF IsOp(op.o)
       THEN LET v == ValueOf(op, regs)
                \* the symbolic value carried by the record is the one the harness evaluated
                bad == ~(op.n = v.n /\ op.d = v.d)
            IN Walk(c, k + 1, Append(regs, v), IF bad THEN errs \cup {"carried-value"} ELSE errs)
       ELSE Walk(c, k + 1, regs, IF c.skip THEN errs ELSE errs \cup QueryErrs(op, c.r[k], regs))

Errs(c) == IF Has(c, "panic") THEN {"panic"} ELSE Walk(c, 1, <<>>, {})

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
