------------------------------- MODULE ConfTri -------------------------------
(* Conformance of recorded triangulations.                                   *)
EXTENDS Triang, Json, IOUtils, TLC
SetOf(s) == { s[i] : i \in DOMAIN s }
When(c, n) == IF c THEN {} ELSE {n}
\* the points come back as they were given
Base(c) == When(c.pts = c.p, "given") \cup When(Len(c.T) = Cardinality(SetOf(c.T)), "twice") \cup Faults(c.p, SetOf(c.T))
Known(c) == { << x[1], x[2] >> : x \in SetOf(c.c) }
Named(c) == Clear(c.p, Known(c)) /\ Cardinality(Spots(c.p)) = Len(c.p)
Errs(c) ==
  IF c.fail # << >> THEN { "fail/" \o c.k }
  ELSE { e \o "/" \o c.k : e \in
    CASE c.k = "dt" -> LET b == Base(c) IN IF b # {} THEN b ELSE When(Delaunay(c.p, SetOf(c.T)), "circle")
      \* constraints that cross or name one point twice over are not promised anything
      [] c.k \in {"cdt", "batch"} /\ (c.c = << >> \/ Named(c)) ->
           LET b == Base(c)
           IN IF b # {} THEN b
              ELSE When(Flat(c.p) \/ Respects(c.p, SetOf(c.T), Known(c)), "constraint")
                   \cup When(c.c # << >> \/ Delaunay(c.p, SetOf(c.T)), "circle")
      [] c.k \in {"cdt", "batch"} -> When(c.pts = c.p, "given")
      \* the triangles inside the first three points
      [] c.k = "inside" -> When(Faults(c.p, SetOf(c.T)) # {} \/ SetOf(c.keep) = 1..Len(c.T), "inside") }
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
