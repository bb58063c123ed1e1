------------------------------ MODULE ConfBox ------------------------------
(* Conformance of recorded box tree histories and box operations.           *)
EXTENDS Boxes, Json, IOUtils, TLC
Has(c, f) == f \in DOMAIN c

Count(s, d) == Cardinality({ i \in DOMAIN s : s[i] = d })
Payloads(t, s) == { t[i].d : i \in DOMAIN t } \cup { s[i] : i \in DOMAIN s }

After(op, t) ==
  CASE op.o = "build" -> [i \in DOMAIN op.b |-> Entry(op.b[i], op.d[i])]
    [] op.o = "ins" -> Insert(t, op.b[1], op.d[1])
    [] op.o = "inv" -> Invalidate(t, op.d[1])
    [] op.o = "compact" -> IF LiveSet(t) = {} THEN t ELSE Compact(t)

\* r = [n, all, live, rb, box]: result of the operation, then what is observed
StepErrs(op, t, u, r) ==
 (IF op.o = "build" /\ r.n # 0 THEN {"build-lookup"} ELSE {})
  \cup (IF op.o = "inv" /\ r.n # Cardinality(Live(t, op.d[1])) THEN {"invalidate-count"} ELSE {})
  \cup (IF op.o = "compact" /\ r.n # (IF LiveSet(t) = {} THEN 0 ELSE 1) THEN {"compact-result"} ELSE {})
  \cup (IF \A d \in Payloads(u, r.all) : Count(r.all, d) = Cardinality(Hits(u, op.q, d)) THEN {} ELSE {"query"})
  \cup (IF \A d \in Payloads(u, r.live) : Count(r.live, d) = Cardinality(HitsLive(u, op.q, d)) THEN {} ELSE {"query-live"})
  \cup (IF r.rb = NeedsRebuild(u) THEN {} ELSE {"needs-rebuild"})
  \cup (IF r.box = <<>> THEN (IF \E i \in DOMAIN u : u[i].d = op.d[1] THEN {"lookup"} ELSE {})
        ELSE IF \E i \in DOMAIN u : u[i].d = op.d[1] /\ u[i].b = r.box[1] THEN {} ELSE {"lookup"})

RECURSIVE Walk(_, _, _, _)
Walk(c, k, t, errs) ==
  IF k > Len(c.ops) THEN errs
  ELSE LET u == After(c.ops[k], t) IN Walk(c, k + 1, u, errs \cup StepErrs(c.ops[k], t, u, c.r[k]))

\* algebra of two boxes given by corner pairs: r = [span, join, meets, meetsr, approx, long, grow]
AlgErrs(c) ==
  LET a == Span(c.p[1], c.p[2])
      b == Span(c.p[3], c.p[4])
      r == c.r
  IN (IF r.span = a THEN {} ELSE {"from-points"})
     \cup (IF r.join = Join(a, b) THEN {} ELSE {"union"})
     \cup (IF r.meets = Meets(a, b) /\ r.meetsr = Meets(a, b) THEN {} ELSE {"meets"})
     \cup (IF "no" \in {r.approx, r.approxr} /\ Meets(a, b) THEN {"approx-meets"} ELSE {})
     \cup (IF "yes" \in {r.approx, r.approxr} /\ ~Meets(a, b) THEN {"approx-meets"} ELSE {})
     \cup (IF r.long = LongestAxis(a) - 1 THEN {} ELSE {"longest-axis"})
     \cup (IF r.grow = Grow(a, 1) THEN {} ELSE {"inflate"})
     \cup (IF r.mid = [i \in Axes(a) |-> a[1][i] + a[2][i]] THEN {} ELSE {"center"})

RECURSIVE SpanAll(_, _)
SpanAll(p, k) == IF k = 1 THEN << p[1], p[1] >> ELSE Join(SpanAll(p, k - 1), << p[k], p[k] >>)
BBoxErrs(c) == LET w == SpanAll(c.p, Len(c.p)) IN
  (IF c.r.exact = w THEN {} ELSE {"bbox"}) \cup (IF c.r.approx = << >> \/ c.r.approx = w THEN {} ELSE {"bbox-approx"})

Errs(c) == IF Has(c, "panic") THEN {"panic"}
           ELSE IF c.k = "tree" THEN Walk(c, 1, <<>>, {})
           ELSE IF c.k = "bbox" THEN BBoxErrs(c)
           ELSE AlgErrs(c)

-----------------------------------------------------------------------------
Cases == ndJsonDeserialize(IOEnv.CASES)
Chunks == 64
VARIABLES chunk, pos
Init == chunk \in 0..(Chunks - 1) /\ pos = 0
Idx == pos * Chunks + chunk + 1
Next == /\ Idx <= Len(Cases)
        /\ LET e == Errs(Cases[Idx]) IN IF e = {} THEN TRUE ELSE PrintT("NONCONFORMING " \o ToJson(<<Idx, e>>))
        /\ pos' = pos + 1 /\ UNCHANGED chunk
=============================================================================
