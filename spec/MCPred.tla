------------------------------ MODULE MCPred ------------------------------
(* Laws of the planar predicates, checked on every configuration of four  *)
(* points of a small grid.                                                *)
EXTENDS Isect, TLC
CONSTANT Side
Grid == (0..(Side - 1)) \X (0..(Side - 1))
VARIABLE q
Init == q = <<>>
Next == Len(q) < 4 /\ \E g \in Grid : q' = Append(q, g)
Full == Len(q) = 4

A == q[1]
B == q[2]
C == q[3]
D == q[4]

OrientLaws == Full =>
  /\ Orient2(A, B, C) = Orient2(B, C, A)
  /\ Orient2(A, B, C) = -Orient2(B, A, C)
  /\ Orient2(A, B, C) = Orient2(A, B, D) + Orient2(B, C, D) + Orient2(C, A, D)
  /\ (Orient2(A, B, C) = 0) = Collinear(A, B, C)
CircleLaws == Full =>
  /\ InCircle(A, B, C, D) = -InCircle(B, A, C, D)
  /\ InCircle(A, B, C, D) = -InCircle(A, B, D, C)
  /\ InCircle(A, B, C, A) = 0
  \* the point opposite A on a parallelogram's short diagonal side cannot be inside both circles
  /\ Orient2(A, B, C) > 0 /\ Orient2(A, C, D) > 0 /\ InCircle(A, B, C, D) > 0
       => InCircle(A, B, D, C) < 0
SegmentLaws == Full =>
  /\ OnSegment(C, A, B) = OnSegment(C, B, A)
  /\ OnSegment(A, A, B)
  /\ A # B /\ OnSegment(C, A, B) => LET u == ParamOn(C, A, B) IN
        /\ 0 <= u[1] /\ u[1] <= u[2]
        /\ RPt(C) = Lerp(A, B, u[1], u[2])
TriLaws == Full =>
  LET t == InTri2(D, A, B, C) IN
  /\ t = InTri2(D, B, C, A) /\ t = InTri2(D, B, A, C)
  /\ Orient2(A, B, C) # 0 =>
       /\ t = Classify(Orient2(A, B, D), Orient2(B, C, D), Orient2(C, A, D))
       /\ (t # "Off") = InClosedTri(<<RInt(D[1]), RInt(D[2]), RInt(0)>>,
                                    << <<A[1], A[2], 0>>, <<B[1], B[2], 0>>, <<C[1], C[2], 0>> >>)
       /\ t = InTri3(<<D[1], D[2], D[1]>>, <<A[1], A[2], A[1]>>, <<B[1], B[2], B[1]>>, <<C[1], C[2], C[1]>>)
IntersectionLaws == Full =>
  (A # B /\ C # D =>
    LET s == SegSeg(A, B, C, D) IN
    /\ s = SegSeg(C, D, A, B) /\ s = SegSeg(B, A, C, D) /\ s = SegSeg(A, B, D, C)
    /\ \A z \in Grid : (OnSegment(z, A, B) /\ OnSegment(z, C, D)) =>
          \/ s.k = "P" /\ s.pts = {RPt(z)}
          \/ s.k = "S" /\ \E x, y \in s.pts : x # y /\ ~LexLt(RPt(z), x, 1) /\ ~LexLt(y, RPt(z), 1)
    /\ s.k = "S" => Collinear(A, B, C) /\ Collinear(A, B, D)
    /\ s = LET e(p) == <<p[1], p[2], p[1] - p[2]>>
               t == SegSeg(e(A), e(B), e(C), e(D))
           IN [t EXCEPT !.pts = { <<x[1], x[2]>> : x \in @ }])
=============================================================================
