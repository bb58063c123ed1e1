---------------------------- MODULE ConfConvert ----------------------------
(* Conformance of recorded conversion chains.                               *)
EXTENDS Convert, Json, IOUtils, TLC
When(c, n) == IF c THEN {} ELSE {n}
Bad == -9999
IsHeld(P, v, x) == x.e # Bad /\ Held(P, v, x.m, x.e)
\* lo <= v <= hi
Within(v, i) == i = << >> \/ (/\ i[1].e # Bad /\ i[2].e # Bad
                              /\ Cmp(Value(i[1].m, i[1].e), v) <= 0 /\ Cmp(v, Value(i[2].m, i[2].e)) <= 0)
Tiny(v) == WLe(WMul(WAbs(v[1]), WMul(WOf(100000), WOf(100000))), v[2])
Fits(v, bits) == Less(Size(v), << Pow2(bits), WOf(1) >>)
\* what a scalar that holds v says about itself
Seen(v, o) ==
  LET s == WSgn(v[1])
  IN When((o.ty = "double" /\ o.f64 = o.dbl) \/ IsHeld(53, v, o.f64), "to-double")
     \cup When(IsHeld(24, v, o.f32), "to-float")
     \cup When(IF Fits(v, 63) THEN o.i64 # << >> /\ Dropped(v, o.i64[1]) ELSE o.i64 = << >> \/ ~Fits(v, 64), "to-signed")
     \cup When(IF WSgn(v[1]) >= 0 THEN (IF Fits(v, 64) THEN o.u64 # << >> /\ Dropped(v, o.u64[1]) ELSE o.u64 = << >>)
               ELSE (IF Fits(v, 0) THEN TRUE ELSE o.u64 = << >>), "to-unsigned")
     \cup When(Within(v, o.iv), "interval")
     \cup When(o.fast = << >> \/ o.fast[1] = o.f64 \/ IsHeld(53, v, o.fast[1]), "fast")
     \cup When(o.sign = (IF o.ty = "double" /\ Tiny(v) THEN 0 ELSE s), "sign")
     \cup When(o.abs, "absolute") \cup When(o.least, "least-greatest")
\* a step that reaches a double may move the value, nothing else may
After(v, o) == IF o.ty = "double" THEN Value(o.dbl.m, o.dbl.e) ELSE v
Reached(v, o) == IF o.ty = "double" THEN IsHeld(53, v, o.dbl) ELSE v = o.val \/ Cmp(v, o.val) = 0
RECURSIVE Walk(_, _, _)
Walk(v, s, k) ==
  IF k > Len(s) THEN {}
  ELSE IF ~Reached(v, s[k]) THEN { (IF k = 1 THEN "enter/" ELSE "move/") \o s[k].via }
  ELSE LET w == After(v, s[k]) IN Seen(w, s[k]) \cup Walk(w, s, k + 1)
\* a double that stands for a number computed without cancelling keeps 40 binary digits
Near(v, x) == x.e # Bad /\ LET gap == Size(Minus(v, Value(x.m, x.e))) IN ~Less(Size(v), << WMul(gap[1], Pow2(40)), gap[2] >>)
Mixed(r) == When(\A k \in DOMAIN r.ds : Near(r.v, r.ds[k]), "computed") \cup When(\A k \in DOMAIN r.iv : Within(r.v, r.iv[k]), "computed-interval")
Errs(c) == IF c.fail # << >> THEN {"fail"} ELSE Walk(c.v, c.s, 1) \cup UNION { Mixed(c.mix[k]) : k \in DOMAIN c.mix }
-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
