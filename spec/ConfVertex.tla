----------------------------- MODULE ConfVertex -----------------------------
(* Conformance of recorded vertex insertion histories.                      *)
EXTENDS VertexSet, Json, IOUtils, TLC
RECURSIVE Walk(_, _, _)
Walk(c, k, V) ==
  IF k > Len(c.r) THEN IF c.fail # << >> THEN {"fail"} ELSE {}
  ELSE LET s == c.r[k]
           o == c.ops[k]
           x == Outcomes(V, o.o, o.p)
           hit == { r \in x : r.n = s.n /\ r.old = s.old }
       IN IF hit = {} THEN { IF s.old THEN "found" ELSE "made" }
          ELSE IF \A r \in hit : r.V # s.V THEN {"positions"} ELSE Walk(c, k + 1, s.V)
Errs(c) == Walk(c, 1, << >>)
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
