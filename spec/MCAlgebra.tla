----------------------------- MODULE MCAlgebra -----------------------------
(* Laws of the algebra over small entries, checked as matrices grow.        *)
EXTENDS Algebra
CONSTANTS Lo, Hi
Entries == (0 - Lo)..Hi
VARIABLE m
Init == m = << >>
Next == Len(m) < 9 /\ \E x \in Entries : m' = Append(m, x)
Full == Len(m) = 9
A == << << m[1], m[2], m[3] >>, << m[4], m[5], m[6] >>, << m[7], m[8], m[9] >> >>
a == A[1]
b == A[2]
c == A[3]
Perpendicular == Full => Inner(Outer3(a, b), a) = 0 /\ Inner(Outer3(a, b), b) = 0
Lagrange == Full => Inner(Outer3(a, b), Outer3(a, b)) = Inner(a, a) * Inner(b, b) - Inner(a, b) * Inner(a, b)
Triple == Full => Det(A) = Inner(Outer3(a, b), c)
Turned == Full => Det(Flip(A)) = Det(A)
Swapped == Full => Det(<< b, a, c >>) = 0 - Det(A) /\ Outer3(b, a) = ScaleV(-1, Outer3(a, b))
Product == Full => Det(MatMul(A, A)) = Det(A) * Det(A) /\ Flip(MatMul(A, Flip(A))) = MatMul(A, Flip(A))
Neutral == Full => MatMul(A, Unit(3)) = A /\ MatMul(Unit(3), A) = A
\* rows of the inverse are the cross products of columns
Adj == << Outer3(Col(A, 2), Col(A, 3)), Outer3(Col(A, 3), Col(A, 1)), Outer3(Col(A, 1), Col(A, 2)) >>
Inverse == Full => Inverts(A, Adj, Det(A)) /\ MatMul(Adj, A) = ScaleM(Det(A), Unit(3))
Acts == Full => MatVec(MatMul(A, A), a) = MatVec(A, MatVec(A, a))
Laplace == Full => Det(A) = A[1][1] * Det2(b[2], b[3], c[2], c[3]) - A[1][2] * Det2(b[1], b[3], c[1], c[3]) + A[1][3] * Det2(b[1], b[2], c[1], c[2])
PlaneThrough == Full =>
  LET n == Outer3(SubV(b, a), SubV(c, a))
      d == 0 - Inner(n, a)
  IN Through(n, d, << a, b, c >>) /\ (~IsZeroV(n) => SamePlane(n, d, ScaleV(-2, n), (-2) * d) /\ ~SamePlane(n, d, n, d + 1))
OrderTotal == Full => Lex(a, b) = 0 - Lex(b, a) /\ ((Lex(a, b) <= 0 /\ Lex(b, c) <= 0) => Lex(a, c) <= 0)
=============================================================================
