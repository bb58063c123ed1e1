-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Integers beyond TLC's 32 bits: little-endian sequences of limbs to base *)
(* 10000.  In normal form every limb but the last is in 0..9999 and the    *)
(* last carries the sign (-1 if negative); zero is << >>.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

WBase == 10000

RECURSIVE WCarry(_, _, _, _)
WCarry(s, i, c, out) ==
  IF i > Len(s)
  THEN IF c = 0 THEN out ELSE IF c = -1 THEN Append(out, c)
       ELSE WCarry(s, i, c \div WBase, Append(out, c % WBase))
  ELSE LET v == s[i] + c IN WCarry(s, i + 1, v \div WBase, Append(out, v % WBase))

RECURSIVE WTrim(_)
WTrim(s) == IF s = << >> THEN s
            ELSE IF s[Len(s)] = 0 THEN WTrim(SubSeq(s, 1, Len(s) - 1))
            ELSE IF Len(s) > 1 /\ s[Len(s)] = -1 /\ s[Len(s) - 1] = WBase - 1
                 THEN WTrim(Append(SubSeq(s, 1, Len(s) - 2), -1))
            ELSE s
WNorm(s) == WTrim(WCarry(s, 1, 0, << >>))

WOf(n) == WNorm(<< n >>)
WAt(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
WMaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
WAdd(a, b) == WNorm([i \in 1..WMaxLen(a, b) |-> WAt(a, i) + WAt(b, i)])
WSub(a, b) == WNorm([i \in 1..WMaxLen(a, b) |-> WAt(a, i) - WAt(b, i)])
RECURSIVE WConv(_, _, _, _)
WConv(a, b, k, i) == IF i > Len(a) THEN 0
                     ELSE (IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + WConv(a, b, k, i + 1)
WMul(a, b) == IF a = << >> \/ b = << >> THEN << >>
              ELSE WNorm([k \in 1..(Len(a) + Len(b) - 1) |-> WConv(a, b, k, 1)])
\* the highest limb decides, because the lower ones are non-negative and smaller
WSgn(a) == LET s == WTrim(a) IN IF s = << >> THEN 0 ELSE IF s[Len(s)] > 0 THEN 1 ELSE -1
WLe(a, b) == WSgn(WSub(b, a)) >= 0

\* ------------------------------------------------ predicates on wide points
WMinus(p, q) == [i \in 1..Len(p) |-> WSub(p[i], q[i])]
WOrient2(a, b, c) ==
  LET u == WMinus(b, a)
      v == WMinus(c, a)
  IN WSub(WMul(u[1], v[2]), WMul(u[2], v[1]))
WDet2(a, b, c, d) == WSub(WMul(a, d), WMul(b, c))
WOrient3(a, b, c, d) ==
  LET u == WMinus(b, a)
      v == WMinus(c, a)
      w == WMinus(d, a)
  IN WAdd(WSub(WMul(u[1], WDet2(v[2], v[3], w[2], w[3])),
               WMul(u[2], WDet2(v[1], v[3], w[1], w[3]))),
          WMul(u[3], WDet2(v[1], v[2], w[1], w[2])))
WSq(v) == WAdd(WMul(v[1], v[1]), WMul(v[2], v[2]))
WInCircle(a, b, c, d) ==
  LET u == WMinus(a, d)
      v == WMinus(b, d)
      w == WMinus(c, d)
  IN WAdd(WSub(WMul(u[1], WDet2(v[2], WSq(v), w[2], WSq(w))),
               WMul(u[2], WDet2(v[1], WSq(v), w[1], WSq(w)))),
          WMul(WSq(u), WDet2(v[1], v[2], w[1], w[2])))
=============================================================================
