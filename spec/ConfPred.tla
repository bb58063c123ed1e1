------------------------------ MODULE ConfPred ------------------------------
(* Conformance of recorded predicate calls with module Geom. *)
EXTENDS Geom, Wide, Json, IOUtils, TLC

Has(c, f) == f \in DOMAIN c

Want(c) ==
  LET p == c.p IN
  CASE c.k = "orient2" -> Sgn(Orient2(p[1], p[2], p[3]))
    [] c.k = "orient3" -> Sgn(Orient3(p[1], p[2], p[3], p[4]))
    [] c.k = "incircle" -> Sgn(InCircle(p[1], p[2], p[3], p[4]))
    [] c.k \in {"worient2", "worient2d"} -> WSgn(WOrient2(p[1], p[2], p[3]))
    [] c.k = "worient3" -> WSgn(WOrient3(p[1], p[2], p[3], p[4]))
    [] c.k = "wincircle" -> WSgn(WInCircle(p[1], p[2], p[3], p[4]))
    [] c.k = "tri2" -> InTri2(p[1], p[2], p[3], p[4])
    [] c.k = "tri3" -> InTri3(p[1], p[2], p[3], p[4])

LineErrs(c) ==
  LET q == c.p[1]
      a == c.p[2]
      b == c.p[3]
      r == c.r
      on == OnSegment(q, a, b)
  IN (IF r.eq = (q = a) THEN {} ELSE {"equal"})
     \cup (IF r.col = Collinear(a, b, q) THEN {} ELSE {"collinear"})
     \cup (IF r.deg = Degenerate(q, a, b) THEN {} ELSE {"degenerate"})
     \cup (IF r.on = on THEN {} ELSE {"on-segment"})
     \cup (IF r.onr = on THEN {} ELSE {"on-segment-reversed"})
     \cup (IF Len(r.ut) = 0 THEN {}
           ELSE LET w == NearParam(q, a, b, 81, 49) IN
                IF (IF w = <<>> THEN r.ut[1] = <<>> ELSE r.ut[1] = Rat(w[1], w[2])) THEN {} ELSE {"near"})
     \cup (IF on THEN LET u == ParamOn(q, a, b) IN
                      IF r.u = Rat(u[1], u[2]) THEN {} ELSE {"parameter"}
           ELSE IF r.u = <<>> THEN {} ELSE {"parameter-off"})

Errs(c) == IF Has(c, "panic") THEN {"panic"}
           ELSE IF c.k = "line" THEN LineErrs(c)
           ELSE IF c.r = Want(c) THEN {} ELSE {c.k}

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
