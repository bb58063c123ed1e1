----------------------------- MODULE ConvertGen ----------------------------
(* Every short chain of conversions between the scalar types.               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxLen
Types == { "double", "rational", "lazy" }
Ways == { "from", "from-ref", "ref-into", "point", "vector", "matrix" }
Starts == { "whole", "fraction", "double", "number" }
VARIABLES start, ty, path
Init == start \in Starts /\ ty \in Types /\ path = << >>
Next == /\ Len(path) < MaxLen
        /\ \E t \in Types, w \in Ways : path' = Append(path, << t, w >>)
        /\ UNCHANGED << start, ty >>
Emit == Len(path) = MaxLen => PrintT("BEHAVIOUR " \o ToJson([start |-> start, ty |-> ty, path |-> path]))
=============================================================================
