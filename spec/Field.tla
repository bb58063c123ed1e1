------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* The ordered field Q(eps): ratios of integer polynomials in a positive   *)
(* infinitesimal eps.  The implementation is run with eps instantiated by  *)
(* concrete tiny rationals; as long as coefficients stay small, signs and  *)
(* comparisons of the instances are exactly the ones computed here.        *)
(* A polynomial is the tuple of its coefficients, lowest order first, no   *)
(* trailing zeros; the zero polynomial is <<>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

FMax(a, b) == IF a >= b THEN a ELSE b
FAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE FGcd(_, _)
FGcd(a, b) == IF b = 0 THEN FAbs(a) ELSE FGcd(b, a % FAbs(b))

RECURSIVE Trim(_)
Trim(p) == IF p = <<>> THEN <<>> ELSE IF p[Len(p)] = 0 THEN Trim(SubSeq(p, 1, Len(p) - 1)) ELSE p
At(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE 0
PAdd(p, q) == Trim([i \in 1..FMax(Len(p), Len(q)) |-> At(p, i) + At(q, i)])
PNeg(p) == [i \in 1..Len(p) |-> -p[i]]
PSub(p, q) == PAdd(p, PNeg(q))
RECURSIVE ConvAt(_, _, _, _)
ConvAt(p, q, k, i) == IF i > k THEN 0 ELSE At(p, i) * At(q, k + 1 - i) + ConvAt(p, q, k, i + 1)
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>>
              ELSE Trim([k \in 1..(Len(p) + Len(q) - 1) |-> ConvAt(p, q, k, 1)])
RECURSIVE PSgn(_)
PSgn(p) == IF p = <<>> THEN 0 ELSE IF p[1] > 0 THEN 1 ELSE IF p[1] < 0 THEN -1 ELSE PSgn(Tail(p))
RECURSIVE Content(_)
Content(p) == IF p = <<>> THEN 0 ELSE FGcd(p[1], Content(Tail(p)))
RECURSIVE Order(_)
Order(p) == IF p[1] # 0 THEN 0 ELSE 1 + Order(Tail(p))
Drop(p, k) == SubSeq(p, k + 1, Len(p))
PDiv(p, g) == [i \in 1..Len(p) |-> p[i] \div g]
MaxCoef(p) == IF p = <<>> THEN 0 ELSE CHOOSE m \in {FAbs(p[i]) : i \in 1..Len(p)} : \A i \in 1..Len(p) : FAbs(p[i]) <= m

\* values: [n, d] with d a nonzero polynomial of positive sign; common content removed
Val(n, d) ==
  IF n = <<>> THEN [n |-> <<>>, d |-> <<1>>]
  ELSE LET k == IF Order(n) < Order(d) THEN Order(n) ELSE Order(d)
           g == FGcd(Content(n), Content(d))
           s == PSgn(d)
           a == PDiv(Drop(n, k), g)
           b == PDiv(Drop(d, k), g)
       IN IF s > 0 THEN [n |-> a, d |-> b] ELSE [n |-> PNeg(a), d |-> PNeg(b)]
VInt(i) == Val(Trim(<<i>>), <<1>>)
VAdd(x, y) == Val(PAdd(PMul(x.n, y.d), PMul(y.n, x.d)), PMul(x.d, y.d))
VSub(x, y) == Val(PSub(PMul(x.n, y.d), PMul(y.n, x.d)), PMul(x.d, y.d))
VMul(x, y) == Val(PMul(x.n, y.n), PMul(x.d, y.d))
VDiv(x, y) == Val(PMul(x.n, y.d), PMul(x.d, y.n))
VNeg(x) == [n |-> PNeg(x.n), d |-> x.d]
VSgn(x) == PSgn(x.n)
VCmp(x, y) == PSgn(PSub(PMul(x.n, y.d), PMul(y.n, x.d)))
VEq(x, y) == VCmp(x, y) = 0
VAbs(x) == IF VSgn(x) < 0 THEN VNeg(x) ELSE x
VMin(x, y) == IF VCmp(x, y) <= 0 THEN x ELSE y
VMax(x, y) == IF VCmp(x, y) >= 0 THEN x ELSE y
VTimes(k, x) == VMul(VInt(k), x)
\* inside the range in which concrete instances behave like the infinitesimal
Small(x) == Len(x.n) <= 7 /\ Len(x.d) <= 7 /\ MaxCoef(x.n) <= 2000 /\ MaxCoef(x.d) <= 2000

\* operations of the number types, by name
Binary == {"+", "-", "*", "/", "min", "max", "+=", "-="}
Apply(o, x, y) == CASE o \in {"+", "+="} -> VAdd(x, y)
                    [] o \in {"-", "-="} -> VSub(x, y)
                    [] o = "*" -> VMul(x, y)
                    [] o = "/" -> VDiv(x, y)
                    [] o = "min" -> VMin(x, y)
                    [] o = "max" -> VMax(x, y)
Defined(o, x, y) == o = "/" => VSgn(y) # 0
Unary == {"neg", "abs", "dup"}
Apply1(o, x) == CASE o = "neg" -> VNeg(x) [] o = "abs" -> VAbs(x) [] o = "dup" -> x
=============================================================================
