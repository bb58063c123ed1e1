------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* Vectors, matrices and planes over the integers.  A vector is a tuple, a *)
(* matrix a tuple of rows, a plane [n, d] the set of x with n.x + d = 0.    *)
(* Fractions are << numerator, denominator >>.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumSeq(_, _)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)
Sum(s) == SumSeq(s, Len(s))
ZeroV(n) == [i \in 1..n |-> 0]
IsZeroV(a) == \A i \in DOMAIN a : a[i] = 0
AddV(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
SubV(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
ScaleV(k, a) == [i \in 1..Len(a) |-> k * a[i]]
Inner(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
Det2(a, b, c, d) == a * d - b * c
Outer3(a, b) == << Det2(a[2], a[3], b[2], b[3]), Det2(a[3], a[1], b[3], b[1]), Det2(a[1], a[2], b[1], b[2]) >>
\* -1, 0, 1 by the first coordinate that differs
Lex(a, b) == IF a = b THEN 0
             ELSE LET i == CHOOSE i \in DOMAIN a : a[i] # b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
                  IN IF a[i] < b[i] THEN -1 ELSE 1
\* ----------------------------------------------------------------- matrices
Rows(A) == Len(A)
Cols(A) == Len(A[1])
Col(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MatVec(A, v) == [i \in 1..Rows(A) |-> Inner(A[i], v)]
MatMul(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> Inner(A[i], Col(B, j))]]
AddM(A, B) == [i \in 1..Rows(A) |-> AddV(A[i], B[i])]
SubM(A, B) == [i \in 1..Rows(A) |-> SubV(A[i], B[i])]
ScaleM(k, A) == [i \in 1..Rows(A) |-> ScaleV(k, A[i])]
Flip(A) == [j \in 1..Cols(A) |-> Col(A, j)]
OuterM(a, b) == [i \in 1..Len(a) |-> ScaleV(a[i], b)]
\* the determinant as the sum over permutations
Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
Parity(p) == IF Cardinality({ e \in (DOMAIN p) \X (DOMAIN p) : e[1] < e[2] /\ p[e[1]] > p[e[2]] }) % 2 = 0 THEN 1 ELSE -1
RECURSIVE ProdSeq(_, _)
ProdSeq(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdSeq(s, k - 1)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
P2 == Perms(2)
P3 == Perms(3)
P4 == Perms(4)
Det(A) == LET n == Rows(A)
              P == IF n = 2 THEN P2 ELSE IF n = 3 THEN P3 ELSE P4
          IN SumOver([p \in P |-> Parity(p) * ProdSeq([i \in 1..n |-> A[i][p[i]]], n)], P)
\* B / d is the inverse of A
Inverts(A, B, d) == MatMul(A, B) = ScaleM(d, Unit(Rows(A)))
\* ------------------------------------------------------------------- planes
Side(n, d, x) == Inner(n, x) + d
Through(n, d, P) == \A i \in DOMAIN P : Side(n, d, P[i]) = 0
\* planes with the same points
SamePlane(n, d, m, e) == \E i \in DOMAIN n : n[i] # 0 /\ m[i] # 0 /\ ScaleV(m[i], n) = ScaleV(n[i], m) /\ m[i] * d = n[i] * e
Lead(n) == CHOOSE i \in DOMAIN n : n[i] # 0 /\ \A j \in 1..(i - 1) : n[j] = 0
=============================================================================
