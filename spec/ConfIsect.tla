----------------------------- MODULE ConfIsect -----------------------------
(* Conformance of recorded intersection and hull computations with Isect. *)
EXTENDS Isect, Json, IOUtils, TLC

Has(c, f) == f \in DOMAIN c
\* recorded result of a segment query: [k, p] with p a sequence of rational points
Got(r) == [k |-> r.k, pts |-> {r.p[i] : i \in DOMAIN r.p}]

SegErrs(c) ==
  LET p == c.p
      w == SegSeg(p[1], p[2], p[3], p[4])
      r == c.r
  IN { v \in DOMAIN r :
         IF v = "ee" THEN \* crossing of non-parallel edges only
              IF Parallel(Minus(p[2], p[1]), Minus(p[4], p[3])) THEN r[v].k # "N"
              ELSE Got(r[v]) # w
         ELSE Got(r[v]) # w }

ContactErr(con, x, t) ==
  LET pl == Place(x, t) IN
  IF con[1] = "V" THEN ~(pl.k = "V" /\ pl.at = {con[2] + 1})
  ELSE IF con[1] = "E" THEN
     ~( /\ pl.k = "E"
        /\ con[2] \in 0..2 /\ con[3] \in 0..2 /\ con[2] # con[3]
        /\ pl.at = {con[2] + 1, con[3] + 1}
        /\ con[4] = BaryRat(x, t)[con[3] + 1] )
  ELSE ~(pl.k = "I" /\ << con[2], con[3], con[4] >> = BaryRat(x, t))

TTVariantErrs(v, r, w, p, q, cop) ==
  LET ends == { r.s[i][1] : i \in DOMAIN r.s } \cup { r.s[i][2] : i \in DOMAIN r.s }
      detail == v = "det"
  IN IF w.k = "N" THEN (IF r.k = "N" THEN {} ELSE {v \o "-spurious"})
     ELSE IF r.k = "N" THEN {v \o "-missed"}
     ELSE IF ends # w.pts THEN {v \o "-points"}
     ELSE (IF w.k = "G"
           THEN (IF r.k = (IF detail THEN "C" ELSE "G") /\ IsBoundary(r.s, w.pts, Axes(TriNormal(p))) THEN {} ELSE {v \o "-polygon"})
           ELSE (IF Len(r.s) = 1 /\ r.k \in {"P", "C"} THEN {} ELSE {v \o "-shape"}))
          \cup
          (IF ~detail THEN {}
           ELSE IF \E i \in DOMAIN r.s : \E j \in 1..2 :
                     \/ ContactErr(r.c[i][j][1], r.s[i][j], p)
                     \/ ContactErr(r.c[i][j][2], r.s[i][j], q)
                THEN {v \o "-contact"} ELSE {})

TTErrs(c) ==
  LET p == << c.p[1], c.p[2], c.p[3] >>
      q == << c.p[4], c.p[5], c.p[6] >>
      w == TriTri(p, q)
      cop == CoplanarTris(p, q)
  IN UNION { TTVariantErrs(v, c.r[v], w, p, q, cop) : v \in DOMAIN c.r }

HullErrs(c) ==
  IF \A i \in DOMAIN c.r : c.r[i] \in 0..(Len(c.p) - 1)
  THEN IF IsHullCycle([i \in DOMAIN c.r |-> c.r[i] + 1], c.p) THEN {} ELSE {"hull"}
  ELSE {"hull-index"}

Errs(c) == IF Has(c, "panic") THEN {"panic"}
           ELSE IF c.k = "seg" THEN SegErrs(c)
           ELSE IF c.k = "tt" THEN TTErrs(c)
           ELSE HullErrs(c)

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
