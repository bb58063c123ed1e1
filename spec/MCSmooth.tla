------------------------------ MODULE MCSmooth ------------------------------
(* Laws of tangential smoothing, over every ring of four or five around a  *)
(* vertex drawn from a small box.                                           *)
EXTENDS Smooth
CONSTANTS Ring, Spread, Heights
VARIABLES ring
Turn(k, x, y) == CASE k = 0 -> << x, y >> [] k = 1 -> << -y, x >> [] k = 2 -> << -x, -y >> [] OTHER -> << y, -x >>
Init == ring = << >>
Next == /\ Len(ring) < Ring
        /\ \E x \in 0..Spread, y \in 0..Spread, h \in Heights :
             (x + y > 0) /\ LET q == Turn(Len(ring) % 4, x, y) IN ring' = Append(ring, << q[1], q[2], h >>)
Full == Len(ring) = Ring
W3(a) == << WOf(a[1]), WOf(a[2]), WOf(a[3]) >>
\* the vertex is 1, the ring 2..Ring+1
F == { Canon(<< 1, i + 1, (i % Ring) + 2 >>) : i \in 1..Ring }
Placed(c) == << c >> \o [i \in 1..Ring |-> W3(ring[i])]
O == W3(<< 0, 0, 0 >>)
P0 == Placed(O)
Moved(p, T) == WVec(WTimes(T.Q, p[1]), T.P)
SameWay(T1, k1, T2, k2) == WTimes(WMul(WOf(k1), T2.Q), Moved(P0, T1)) = WTimes(WMul(WOf(k2), T1.Q), Moved(P0, T2))
Half == Target(F, P0, 1, << 1, 2 >>)
One == Target(F, P0, 1, << 1, 1 >>)
N0 == Normal(F, P0, 1)
Tangential == (Full /\ N0 # WZero) => WDot(Moved(P0, Half), N0) = << >>
Linear == Full => SameWay(Half, 2, One, 1)
FlatStays == (Full /\ \A i \in 1..Ring : ring[i][3] = 0) => Half.P[3] = << >>
\* a vertex at the mean of its ring stays there
AtRest == Full =>
  LET s == WSumOf([i \in 1..Ring |-> W3(ring[i])], 1..Ring)
      p == << s >> \o [i \in 1..Ring |-> WTimes(WOf(Ring), W3(ring[i]))]
      T == Target(F, p, 1, << 1, 2 >>)
  IN T.P = WTimes(T.Q, s)
\* moving the mesh moves the place along
Shifted == Full =>
  LET d == W3(<< 3, -2, 5 >>)
      p == [i \in 1..(Ring + 1) |-> WPlus(P0[i], d)]
      T == Target(F, p, 1, << 1, 2 >>)
  IN T.Q = Half.Q /\ T.P = WPlus(Half.P, WTimes(T.Q, d))
\* nothing turns over where every corner of a flat ring bends the same way and the vertex is within
Left(i) == WOrient2(P0[i + 1], P0[(i % Ring) + 2], P0[((i + 1) % Ring) + 2])
Sees(i) == WOrient2(P0[1], P0[i + 1], P0[(i % Ring) + 2])
Convex == \A i \in 1..Ring : WSgn(Left(i)) > 0 /\ WSgn(Sees(i)) > 0
KeepsFacing == (Full /\ (\A i \in 1..Ring : ring[i][3] = 0) /\ Convex) => -1 \notin Turning(F, P0, 1, Half) /\ -1 \notin Turning(F, P0, 1, One)
\* a wider limit never forbids what a narrower one allows
Wider == Full => (TRUE \in Moves(F, P0, 1, Half, WOf(6)) => TRUE \in Moves(F, P0, 1, Half, WOf(20)))
\* the border does not move
Open == Full => Moves(F \ { Canon(<< 1, 2, 3 >>) }, P0, 1, Half, WOf(1000)) = {FALSE}
=============================================================================
