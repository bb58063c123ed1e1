------------------------------ MODULE MCSpace ------------------------------
(* Laws of the spatial predicates and of triangle/triangle intersection.   *)
EXTENDS Isect, TLC
CONSTANT Side, Tall, Slice
Grid == (0..(Side - 1)) \X (0..(Side - 1)) \X (0..(Tall - 1))
\* first triangles: axis-parallel, tilted, sliver
Firsts == { << <<0,0,0>>, <<2,0,0>>, <<0,2,0>> >>,
            << <<0,0,1>>, <<2,1,0>>, <<0,2,1>> >>,
            << <<2,0,1>>, <<0,1,0>>, <<2,2,0>> >>,
            << <<1,0,0>>, <<1,2,0>>, <<1,1,1>> >> }
VARIABLES p, q
Init == p \in Firsts /\ q = <<>>
Next == /\ Len(q) < 3 /\ UNCHANGED p
        /\ \E g \in Grid : /\ Len(q) = 0 => (g[1] + g[2] + g[3]) % Slice = 0
                           /\ q' = Append(q, g)
Full == Len(q) = 3
Proper == Full /\ ~Collinear(q[1], q[2], q[3])

OrientLaws == Full =>
  LET o == Orient3(p[1], q[1], q[2], q[3]) IN
  /\ o = -Orient3(q[1], p[1], q[2], q[3])
  /\ o = -Orient3(p[1], q[2], q[1], q[3])
  /\ o = -Orient3(p[1], q[1], q[3], q[2])
  /\ o = Orient3(p[2], q[1], q[2], q[3]) - Orient3(p[2], p[1], q[2], q[3])
         + Orient3(p[2], p[1], q[1], q[3]) - Orient3(p[2], p[1], q[1], q[2])
InBoth(z) == InTri3(z, p[1], p[2], p[3]) # "Off" /\ InTri3(z, q[1], q[2], q[3]) # "Off"
TriTriLaws == Proper =>
  LET r == TriTri(p, q) IN
  /\ r = TriTri(q, p)
  /\ r = TriTri(p, << q[2], q[1], q[3] >>)
  /\ r = TriTri(<< p[3], p[1], p[2] >>, q)
  \* every corner lies in both triangles
  /\ \A x \in r.pts : Place(x, p).k # "off" /\ Place(x, q).k # "off"
  \* nothing shared is left out: lattice points of both triangles are inside the result
  /\ \A z \in Grid : InBoth(z) =>
       LET x == RPt(z) IN
       CASE r.k = "N" -> FALSE
         [] r.k = "P" -> r.pts = {x}
         [] r.k = "S" -> \E a, b \in r.pts : a # b /\ ~LexLt(x, a, 1) /\ ~LexLt(b, x, 1)
         [] r.k = "G" -> LET ax == Axes(TriNormal(p))
                             h == Hom(x)
                         IN x \in r.pts \/ \E a, b, c \in r.pts :
                              LET e == << Sgn(HDet(Hom(a), Hom(b), h, ax)), Sgn(HDet(Hom(b), Hom(c), h, ax)), Sgn(HDet(Hom(c), Hom(a), h, ax)) >>
                              IN ~(-1 \in {e[1], e[2], e[3]}) /\ Sgn(HDet(Hom(a), Hom(b), Hom(c), ax)) > 0
  /\ r.k = "G" => CoplanarTris(p, q)
=============================================================================
