------------------------------ MODULE MCField ------------------------------
(* Q(eps) is an ordered field: the laws the number types must obey.        *)
EXTENDS Field, TLC
Elems == { Val(<<1>>, <<1>>), Val(<<-1>>, <<1>>), Val(<<>>, <<1>>), Val(<<7>>, <<1>>), Val(<<1>>, <<3>>), Val(<<-5>>, <<7>>),
           Val(<<0, 1>>, <<1>>), Val(<<0, -1>>, <<1>>), Val(<<0, 0, 1>>, <<1>>), Val(<<1, 1>>, <<1>>), Val(<<1, -1>>, <<1>>),
           Val(<<-1, 3>>, <<1>>), Val(<<1>>, <<1, 1>>), Val(<<0, 1>>, <<3>>), Val(<<1>>, <<0, 1>>), Val(<<2, 3>>, <<1, -1>>) }
VARIABLE t
Init == t = <<>>
Next == Len(t) < 3 /\ \E x \in Elems : t' = Append(t, x)
X == t[1]
Y == t[2]
Z == t[3]
Laws == Len(t) = 3 =>
  /\ VEq(VAdd(X, VAdd(Y, Z)), VAdd(VAdd(X, Y), Z))
  /\ VEq(VMul(X, VMul(Y, Z)), VMul(VMul(X, Y), Z))
  /\ VEq(VMul(X, VAdd(Y, Z)), VAdd(VMul(X, Y), VMul(X, Z)))
  /\ VEq(VAdd(X, Y), VAdd(Y, X)) /\ VEq(VMul(X, Y), VMul(Y, X))
  /\ VEq(VSub(X, X), VInt(0)) /\ VEq(VSub(X, Y), VAdd(X, VNeg(Y)))
  /\ VSgn(Y) # 0 => VEq(VMul(VDiv(X, Y), Y), X)
  /\ VCmp(X, Y) = -VCmp(Y, X) /\ VCmp(X, Y) = VSgn(VSub(X, Y))
  /\ VCmp(X, Y) <= 0 /\ VCmp(Y, Z) <= 0 => VCmp(X, Z) <= 0
  /\ VCmp(X, Y) < 0 => VCmp(VAdd(X, Z), VAdd(Y, Z)) < 0
  /\ VSgn(VMul(X, Y)) = VSgn(X) * VSgn(Y)
  /\ VSgn(VAbs(X)) >= 0 /\ VEq(VAdd(VMin(X, Y), VMax(X, Y)), VAdd(X, Y))
=============================================================================
