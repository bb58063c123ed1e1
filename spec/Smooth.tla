------------------------------- MODULE Smooth -------------------------------
(***************************************************************************)
(* Tangential smoothing.  A vertex inside the surface moves by the share   *)
(* a of the way to the mean of its neighbours, less what leads off the      *)
(* plane across the sum of the normals around it.  It does not move when an *)
(* edge would become longer than allowed or a triangle would turn over.     *)
(*                                                                          *)
(* Positions are wide integers.  The place it moves to is P over Q.         *)
(***************************************************************************)
EXTENDS Mesh, TLC
WVec(a, b) == << WSub(b[1], a[1]), WSub(b[2], a[2]), WSub(b[3], a[3]) >>
WPlus(a, b) == << WAdd(a[1], b[1]), WAdd(a[2], b[2]), WAdd(a[3], b[3]) >>
WTimes(k, a) == << WMul(k, a[1]), WMul(k, a[2]), WMul(k, a[3]) >>
WDot(a, b) == WAdd(WAdd(WMul(a[1], b[1]), WMul(a[2], b[2])), WMul(a[3], b[3]))
WCross(a, b) == << WDet2(a[2], a[3], b[2], b[3]), WDet2(a[3], a[1], b[3], b[1]), WDet2(a[1], a[2], b[1], b[2]) >>
WZero == << << >>, << >>, << >> >>
RECURSIVE WSumOf(_, _)
WSumOf(f, S) == IF S = {} THEN WZero ELSE LET x == CHOOSE x \in S : TRUE IN WPlus(f[x], WSumOf(f, S \ {x}))
\* the other two corners of t, in turn
Others(t, v) == IF t[1] = v THEN << t[2], t[3] >> ELSE IF t[2] = v THEN << t[3], t[1] >> ELSE << t[1], t[2] >>
Around(F, p, v) == TLCEval([t \in Star(F, v) |-> LET o == Others(t, v) IN WCross(WVec(p[v], p[o[1]]), WVec(p[v], p[o[2]]))])
Inside(F, v) == Star(F, v) # {} /\ ~OnBorder(F, v)
Normal(F, p, v) == LET A == Around(F, p, v) IN WSumOf(A, DOMAIN A)
\* where v is drawn to: [P, Q]
Target(F, p, v, a) ==
  LET N == Nbrs(F, v)
      d == TLCEval(WSumOf([u \in N |-> WVec(p[v], p[u])], N))
      n == TLCEval(Normal(F, p, v))
      nn == TLCEval(WDot(n, n))
      flat == nn = << >>
      t == TLCEval(IF flat THEN d ELSE WPlus(WTimes(nn, d), WTimes(WSub(<< >>, WDot(d, n)), n)))
      Q == TLCEval(WMul(WOf(a[2] * Cardinality(N)), IF flat THEN WOf(1) ELSE nn))
  IN [P |-> TLCEval(WPlus(WTimes(Q, p[v]), WTimes(WOf(a[1]), t))), Q |-> Q]
\* compare within a millionth: -1, 0 when too close to tell, 1
Near(x, y) == LET d == WSub(x, y) IN
              IF WLe(WMul(WOf(1000000), IF WSgn(d) < 0 THEN WSub(<< >>, d) ELSE d), y) THEN 0 ELSE WSgn(d)
\* how the longest edge at the place compares with what is allowed
Stretch(F, p, v, T, far2) == { LET e == WVec(T.P, WTimes(T.Q, p[u])) IN Near(WDot(e, e), WMul(WMul(T.Q, T.Q), far2)) : u \in Nbrs(F, v) }
\* how the triangles around turn: cosines against what they were, times positive factors
Turning(F, p, v, T) ==
  { LET o == Others(t, v)
        n0 == WCross(WVec(p[v], p[o[1]]), WVec(p[v], p[o[2]]))
        n1 == WCross(WVec(T.P, WTimes(T.Q, p[o[1]])), WVec(T.P, WTimes(T.Q, p[o[2]])))
        s == WDot(n0, n1)
        lim == WMul(WMul(T.Q, T.Q), WDot(n0, n0))
    IN IF n0 = WZero THEN 1
       ELSE IF WLe(WMul(WOf(10000), IF WSgn(s) < 0 THEN WSub(<< >>, s) ELSE s), lim) THEN 0 ELSE WSgn(s) : t \in Star(F, v) }
\* the answers allowed: TRUE when it moves
Moves(F, p, v, T, far2) ==
  IF ~Inside(F, v) THEN {FALSE}
  ELSE LET S == Stretch(F, p, v, T, far2)
           U == Turning(F, p, v, T)
       IN IF 1 \in S \/ -1 \in U THEN {FALSE} ELSE IF 0 \in S \/ 0 \in U THEN {TRUE, FALSE} ELSE {TRUE}
=============================================================================
