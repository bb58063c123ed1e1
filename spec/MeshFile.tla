------------------------------ MODULE MeshFile ------------------------------
(***************************************************************************)
(* Mesh files.  A document is a sequence of lines [k, a]: a leading word    *)
(* and the tokens after it.  A token is [w, v], a way of writing and a      *)
(* value:                                                                   *)
(*    int     an integer             dec   v quarters, written as a decimal *)
(*    exp     an integer with an exponent                                   *)
(*    slash   an index with texture and normal indices after it             *)
(*    big     more digits than any index has                                *)
(*    word, nan, inf, over           not a finite number                    *)
(* Coordinates are counted in quarters.  Reading gives                      *)
(*    [ok, p, F, sure]   whether the document is well formed, the positions *)
(*                       and the triangles; sure is FALSE where the format  *)
(*                       allows what the library does not promise.          *)
(***************************************************************************)
EXTENDS Mesh
Far == -999999999                       \* a coordinate off the lattice
Tok(w, v) == [w |-> w, v |-> v]
Line(k, a) == [k |-> k, a |-> a]
IsCoord(t) == t.w \in {"int", "dec", "exp", "big"}
Coord(t) == IF t.w = "dec" THEN t.v ELSE IF t.w = "big" \/ t.v > 1000000 THEN Far ELSE 4 * t.v
IsIndex(t) == t.w = "int" /\ t.v >= 0
Bad(s) == [s EXCEPT !.ok = FALSE]
Start == [ok |-> TRUE, p |-> <<>>, F |-> {}, sure |-> TRUE]

Vertex(s, a) == IF Len(a) >= 3 /\ \A i \in 1..3 : IsCoord(a[i])
                THEN [s EXCEPT !.p = Append(@, << Coord(a[1]), Coord(a[2]), Coord(a[3]) >>)] ELSE Bad(s)
\* a triangle over vertices that exist, all different
Face(s, a, b, c) == IF {a, b, c} \subseteq 1..Len(s.p) /\ Cardinality({a, b, c}) = 3
                    THEN [s EXCEPT !.F = AddTri(@, a, b, c)] ELSE Bad(s)

\* ---------------------------------------------------------------------- OBJ
ObjIndex(t) == t.w \in {"int", "slash"}
ObjFace(s, a) == IF Len(a) < 3 \/ \E i \in 1..3 : ~ObjIndex(a[i]) THEN Bad(s)
                 ELSE LET r == Face(s, a[1].v, a[2].v, a[3].v)
                      IN [r EXCEPT !.sure = @ /\ Len(a) = 3]
ObjLine(s, l) == IF ~s.ok THEN s
                 ELSE CASE l.k = "v" -> Vertex(s, l.a)
                        [] l.k = "f" -> ObjFace(s, l.a)
                        [] OTHER -> s
RECURSIVE ObjFrom(_, _, _)
ObjFrom(s, d, k) == IF k > Len(d) THEN s ELSE ObjFrom(ObjLine(s, d[k]), d, k + 1)
ReadObj(d) == ObjFrom(Start, d, 1)

\* ---------------------------------------------------------------------- STL
\* every facet brings its own vertices, three of them, and is closed before the next and before the end
StlLine(s, l) ==
  IF ~s.ok \/ s.end THEN s
  ELSE CASE l.k = "facet" -> IF s.open = <<>> THEN s ELSE Bad(s)
         [] l.k = "vertex" -> LET r == Vertex(s, l.a) IN IF r.ok THEN [r EXCEPT !.open = Append(@, Len(r.p))] ELSE r
         [] l.k = "endfacet" -> LET r == IF Len(s.open) = 3 THEN Face(s, s.open[1], s.open[2], s.open[3]) ELSE Bad(s) IN [r EXCEPT !.open = <<>>]
         [] l.k = "endsolid" -> [s EXCEPT !.end = TRUE]
         [] OTHER -> s
RECURSIVE StlFrom(_, _, _)
StlFrom(s, d, k) == IF k > Len(d) THEN s ELSE StlFrom(StlLine(s, d[k]), d, k + 1)
ReadStl(d) == LET s == StlFrom([ok |-> TRUE, p |-> <<>>, F |-> {}, sure |-> TRUE, open |-> <<>>, end |-> FALSE], d, 1)
              IN IF s.open = <<>> THEN s ELSE Bad(s)

\* ---------------------------------------------------------------------- OFF
\* lines do not matter: words and numbers in one row, comments left out
RECURSIVE Flat(_, _)
Flat(d, k) == IF k > Len(d) THEN <<>>
              ELSE (IF d[k].k = "#" THEN <<>> ELSE (IF d[k].k = "" THEN <<>> ELSE << Tok(d[k].k, 0) >>) \o d[k].a) \o Flat(d, k + 1)
RECURSIVE OffVertices(_, _, _, _)
OffVertices(s, t, k, n) == IF ~s.ok \/ n = 0 THEN s
                           ELSE IF k + 2 > Len(t) THEN Bad(s)
                           ELSE OffVertices(Vertex(s, SubSeq(t, k, k + 2)), t, k + 3, n - 1)
RECURSIVE OffFaces(_, _, _, _)
OffFaces(s, t, k, n) ==
  IF ~s.ok \/ n = 0 THEN s
  ELSE IF k > Len(t) \/ (k <= Len(t) /\ ~IsIndex(t[k])) THEN Bad(s)
  ELSE IF t[k].v > Len(t) - k THEN Bad(s)                \* the face is cut off
  ELSE IF t[k].v = 3
       THEN IF \A i \in 1..3 : IsIndex(t[k + i])
            THEN OffFaces(Face(s, t[k + 1].v + 1, t[k + 2].v + 1, t[k + 3].v + 1), t, k + 4, n - 1)
            ELSE Bad(s)
       ELSE OffFaces(s, t, k + 1 + t[k].v, n - 1)        \* other polygons are left out
ReadOff(d) ==
  LET t == Flat(d, 1)
  IN IF Len(t) < 4 \/ (Len(t) >= 4 /\ (t[1].w # "OFF" \/ \E i \in 2..4 : ~IsIndex(t[i]))) THEN Bad(Start)
     ELSE IF t[2].v > Len(t) THEN Bad(Start)
     ELSE LET s == OffVertices(Start, t, 5, t[2].v) IN OffFaces(s, t, 5 + 3 * t[2].v, t[3].v)

Read(fmt, d) == CASE fmt = "obj" -> ReadObj(d) [] fmt = "off" -> ReadOff(d) [] fmt = "stl" -> ReadStl(d)

\* ------------------------------------------------------------------ writing
\* a mesh [p, F] as a document, its triangles in the order fs
Quarter(c) == Tok("dec", c)
Pos(q) == << Quarter(q[1]), Quarter(q[2]), Quarter(q[3]) >>
Num(n) == Tok("int", n)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Cat(Tail(s))
WriteObj(p, fs) == [i \in 1..Len(p) |-> Line("v", Pos(p[i]))]
                   \o [i \in 1..Len(fs) |-> Line("f", << Num(fs[i][1]), Num(fs[i][2]), Num(fs[i][3]) >>)]
WriteOff(p, fs) == << Line("OFF", <<>>), Line("", << Num(Len(p)), Num(Len(fs)), Num(0) >>) >>
                   \o [i \in 1..Len(p) |-> Line("", Pos(p[i]))]
                   \o [i \in 1..Len(fs) |-> Line("", << Num(3), Num(fs[i][1] - 1), Num(fs[i][2] - 1), Num(fs[i][3] - 1) >>)]
Facet(p, t) == << Line("facet", <<>>), Line("outer", <<>>) >>
               \o [i \in 1..3 |-> Line("vertex", Pos(p[t[i]]))] \o << Line("endloop", <<>>), Line("endfacet", <<>>) >>
WriteStl(p, fs) == << Line("solid", <<>>) >> \o Cat([i \in 1..Len(fs) |-> Facet(p, fs[i])]) \o << Line("endsolid", <<>>) >>
Write(fmt, p, fs) == CASE fmt = "obj" -> WriteObj(p, fs) [] fmt = "off" -> WriteOff(p, fs) [] fmt = "stl" -> WriteStl(p, fs)

\* the triangles as triples of positions, each with how often it occurs
At3(p, t) == << p[t[1]], p[t[2]], p[t[3]] >>
Turns(a) == { a, Rot(a), Rot(Rot(a)) }
Soup(p, F) == LET C == { Turns(At3(p, t)) : t \in F }
              IN { << c, Cardinality({ t \in F : Turns(At3(p, t)) = c }) >> : c \in C }
\* what survives writing and reading back
Same(fmt, p, F, r) == IF fmt = "stl" THEN Soup(p, F) = Soup(r.p, r.F) ELSE r.p = p /\ r.F = F
=============================================================================
