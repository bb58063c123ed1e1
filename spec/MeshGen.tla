------------------------------ MODULE MeshGen ------------------------------
(* Random edit histories: a surface is put together triangle by triangle in *)
(* any order, then edited.  Coordinates are multiples of a power of two, so *)
(* that repeated halving stays exact.                                       *)
EXTENDS Mesh, TLC, Json
CONSTANTS MaxLen, Profiles, Recipes
VARIABLES m, hist, todo, prof, idle, done

U == 1024
Grid3(k) == << <<0,0,0>>, <<1,0,0>>, <<2,0,0>>, <<0,1,0>>, <<1,1,k>>, <<2,1,0>>, <<0,2,0>>, <<1,2,0>>, <<2,2,0>> >>
Recipe(k) ==
  CASE k = 1 -> << << <<0,0,0>>, <<4,0,0>>, <<0,4,0>>, <<0,0,4>> >>, << <<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<1,4,3>> >> >>
    [] k = 2 -> << << <<2,2,0>>, <<4,2,2>>, <<2,4,2>>, <<0,2,2>>, <<2,0,2>>, <<2,2,4>> >>,
                   << <<2,3,6>>, <<3,4,6>>, <<4,5,6>>, <<5,2,6>>, <<3,2,1>>, <<4,3,1>>, <<5,4,1>>, <<2,5,1>> >> >>
    [] k = 3 -> << Grid3(1), << <<1,2,5>>, <<1,5,4>>, <<2,3,5>>, <<3,6,5>>, <<4,5,7>>, <<5,8,7>>, <<5,6,9>>, <<5,9,8>> >> >>
    [] k = 4 -> << << <<0,0,0>>, <<4,0,0>>, <<4,4,0>>, <<0,4,0>>, <<1,1,1>>, <<3,1,1>>, <<3,3,1>>, <<1,3,1>> >>,
                   << <<1,2,5>>, <<2,6,5>>, <<2,3,6>>, <<3,7,6>>, <<3,4,7>>, <<4,8,7>>, <<4,1,8>>, <<1,5,8>> >> >>
    [] k = 5 -> << << <<2,2,1>>, <<4,2,0>>, <<3,4,0>>, <<1,4,0>>, <<0,2,0>>, <<1,0,0>>, <<3,0,0>> >>,
                   << <<1,2,3>>, <<1,3,4>>, <<1,4,5>>, <<1,5,6>>, <<1,6,7>>, <<1,7,2>> >> >>
    [] k = 6 -> << << <<0,0,0>>, <<2,0,1>>, <<0,2,1>>, <<2,2,0>>, <<4,1,0>> >>, << <<1,2,3>>, <<2,4,3>>, <<2,5,4>> >> >>
    [] k = 7 -> << << <<0,0,0>>, <<3,0,0>>, <<0,3,0>>, <<1,1,3>>, <<1,1,-3>> >>,
                   << <<1,2,4>>, <<2,3,4>>, <<3,1,4>>, <<2,1,5>>, <<3,2,5>>, <<1,3,5>> >> >>
    [] k = 8 -> << << <<0,0,0>>, <<4,0,0>>, <<0,4,0>>, <<0,0,4>>, <<4,4,4>>, <<4,0,4>>, <<0,4,4>> >>,
                   << <<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<1,4,3>>, <<5,6,7>> >> >>
    [] k = 9 -> << << <<2,0,0>>, <<3,1,0>>, <<0,3,1>>, <<0,2,4>>, <<1,1,4>>, <<4,4,3>>, <<4,0,1>>, <<3,3,0>>, <<1,4,2>> >>,
                   << <<1,2,5>>, <<1,5,4>>, <<2,3,6>>, <<2,6,5>>, <<3,1,4>>, <<3,4,6>>,
                      <<4,5,8>>, <<4,8,7>>, <<5,6,9>>, <<5,9,8>>, <<6,4,7>>, <<6,7,9>>,
                      <<7,8,2>>, <<7,2,1>>, <<8,9,3>>, <<8,3,2>>, <<9,7,1>>, <<9,1,3>> >> >>
    [] k = 10 -> << << <<2,2,0>>, <<4,2,0>>, <<2,4,0>>, <<0,2,1>>, <<2,0,1>>, <<3,3,3>> >>, << <<1,2,3>>, <<1,4,5>>, <<2,6,3>> >> >>
    \* flat ones
    [] k = 11 -> << Grid3(0), << <<1,2,5>>, <<1,5,4>>, <<2,3,5>>, <<3,6,5>>, <<4,5,7>>, <<5,8,7>>, <<5,6,9>>, <<5,9,8>> >> >>
    [] k = 12 -> << << <<3,1,0>>, <<4,2,0>>, <<3,4,0>>, <<1,4,0>>, <<0,2,0>>, <<1,0,0>>, <<4,0,0>> >>,
                   << <<1,2,3>>, <<1,3,4>>, <<1,4,5>>, <<1,5,6>>, <<1,6,7>>, <<1,7,2>> >> >>
    [] k = 13 -> << << <<0,0,0>>, <<4,0,0>>, <<4,4,0>>, <<0,4,0>>, <<1,1,0>>, <<3,1,0>>, <<3,3,0>>, <<1,3,0>> >>,
                   << <<1,2,5>>, <<2,6,5>>, <<2,3,6>>, <<3,7,6>>, <<3,4,7>>, <<4,8,7>>, <<4,1,8>>, <<1,5,8>> >> >>
    \* a flat star with a vertex that does not see every side
    [] k = 14 -> << << <<2,2,0>>, <<4,0,0>>, <<3,2,0>>, <<4,4,0>>, <<2,3,0>>, <<0,4,0>>, <<1,2,0>>, <<0,0,0>>, <<2,1,0>> >>,
                   << <<1,2,3>>, <<1,3,4>>, <<1,4,5>>, <<1,5,6>>, <<1,6,7>>, <<1,7,8>>, <<1,8,9>>, <<1,9,2>> >> >>
    [] k = 15 -> << << <<1,1,0>>, <<4,0,0>>, <<4,1,0>>, <<2,2,0>>, <<1,4,0>>, <<0,4,0>>, <<0,0,0>>, <<3,3,0>> >>,
                   << <<1,2,3>>, <<1,3,4>>, <<1,4,5>>, <<1,5,6>>, <<1,6,7>>, <<1,7,2>>, <<4,3,8>>, <<5,4,8>> >> >>
    \* planar ones
    [] k = 21 -> << [i \in 1..9 |-> SubSeq(Grid3(0)[i], 1, 2)], << <<1,2,5>>, <<1,5,4>>, <<2,3,5>>, <<3,6,5>>, <<4,5,7>>, <<5,8,7>>, <<5,6,9>>, <<5,9,8>> >> >>
    [] k = 22 -> << << <<2,2>>, <<4,2>>, <<3,4>>, <<1,4>>, <<0,2>>, <<1,0>>, <<3,0>> >>,
                   << <<1,2,3>>, <<1,3,4>>, <<1,4,5>>, <<1,5,6>>, <<1,6,7>>, <<1,7,2>> >> >>
    [] k = 23 -> << << <<0,0>>, <<4,0>>, <<4,4>>, <<0,4>>, <<1,1>>, <<3,1>>, <<3,3>>, <<1,3>> >>,
                   << <<1,2,5>>, <<2,6,5>>, <<2,3,6>>, <<3,7,6>>, <<3,4,7>>, <<4,8,7>>, <<4,1,8>>, <<1,5,8>> >> >>

Op(o, v, t, p) == [o |-> o, v |-> v, t |-> t, p |-> p]
Scaled(ps) == [i \in DOMAIN ps |-> [j \in DOMAIN ps[i] |-> U * ps[i][j]]]
Init == \E k \in Recipes, q \in Profiles :
          /\ m = [p |-> Scaled(Recipe(k)[1]), dead |-> {}, F |-> {}]
          /\ hist = << Op("verts", <<>>, Scaled(Recipe(k)[1]), <<>>) >>
          /\ todo = Recipe(k)[2] /\ prof = q /\ idle = 0 /\ done = FALSE

Pick(S) == RandomElement(S)
Turn(t, k) == CASE k = 0 -> t [] k = 1 -> Rot(t) [] k = 2 -> Rot(Rot(t)) [] k = 3 -> << t[2], t[1], t[3] >>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
New(x) == Len(x.p) + 1

RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) <= 1 THEN s ELSE LET i == Pick(1..Len(s)) IN << s[i] >> \o Shuffle(Drop(s, i))

\* put one triangle, or all that remain at once
Put == \E i \in {Pick(1..Len(todo))}, all \in {Pick(1..8)} :
  IF all = 1 /\ Len(todo) > 1
  THEN \E ts \in {Shuffle(todo)} :
         /\ todo' = << >> /\ m' = [m EXCEPT !.F = AddAll(m.F, ts)]
         /\ hist' = Append(hist, Op("addm", <<>>, ts, <<>>))
  ELSE \E t \in {Turn(todo[i], Pick(0..2))} :
         /\ todo' = Drop(todo, i) /\ m' = [m EXCEPT !.F = AddTri(m.F, t[1], t[2], t[3])]
         /\ hist' = Append(hist, Op("addt", t, <<>>, <<>>))

\* ---------------------------------------------------------------- edits
\* each gives << >> or << the operation, the mesh after it >>
EditAddT(x) == IF Cardinality(Live(x)) < 3 THEN << >> ELSE
  LET a == Pick(Live(x))
      b == Pick(Live(x) \ {a})
      c == Pick(Live(x) \ {a, b})
      t == << a, b, c >>
  IN << Op("addt", t, <<>>, <<>>), [x EXCEPT !.F = AddTri(x.F, a, b, c)] >>
\* over a border edge, so that holes get closed
EditFill(x) == IF Border(x.F) = {} THEN EditAddT(x) ELSE
  LET e == Pick(Border(x.F))
      C == { f[2] : f \in { g \in Border(x.F) : g[1] = e[2] } } \ { e[1], e[2] }
      D == IF C = {} THEN Live(x) \ { e[1], e[2] } ELSE C
  IN IF D = {} THEN << >> ELSE
     LET c == Pick(D)
         t == Turn(<< e[1], e[2], c >>, Pick(0..3))
     IN << Op("addt", t, <<>>, <<>>), [x EXCEPT !.F = AddTri(x.F, t[1], t[2], t[3])] >>
EditAddM(x) == LET k == Pick(1..3)
                   W == Live(x)
                   T(i) == LET a == Pick(W)
                               b == Pick(W \ {a})
                               c == Pick(W \ {a, b})
                           IN << a, b, c >>
                   ts == [i \in 1..k |-> T(i)]
               IN IF Cardinality(W) < 3 THEN << >> ELSE << Op("addm", <<>>, ts, <<>>), [x EXCEPT !.F = AddAll(x.F, ts)] >>
EditRemT(x) == IF x.F = {} THEN << >> ELSE LET t == Pick(x.F) IN << Op("remt", t, <<>>, <<>>), [x EXCEPT !.F = @ \ {t}] >>
EditRemM(x) == IF Cardinality(x.F) < 3 THEN << >> ELSE
   LET a == Pick(x.F)
       b == Pick(x.F)
       ts == IF a = b THEN << a >> ELSE << a, b >>
   IN << Op("remm", <<>>, ts, <<>>), [x EXCEPT !.F = @ \ {a, b}] >>
EditFlip(x) == IF x.F = {} THEN << >> ELSE
   LET e == Pick(Spokes(x.F))
   IN << Op("flip", e, <<>>, <<>>), IF CanFlip(x, e[1], e[2]) THEN [x EXCEPT !.F = Flip(x.F, e[1], e[2])] ELSE x >>
EditSplitE(x) == IF x.F = {} THEN << >> ELSE
   LET e == Pick(Spokes(x.F))
       q == Mid(x.p[e[1]], x.p[e[2]])
   IN IF ~Halves(x.p[e[1]], x.p[e[2]]) \/ ~NoPillow(x.F, e[1], e[2]) THEN << >>
      ELSE << Op("spe", e, <<>>, q),
              IF At(x, q) # {} THEN x ELSE [x EXCEPT !.F = SplitEdge(x.F, e[1], e[2], New(x)), !.p = Append(x.p, q)] >>
EditSplitF(x) == IF x.F = {} THEN << >> ELSE
   LET t == Turn(Pick(x.F), Pick(0..2))
       a == x.p[t[1]]
       b == x.p[t[2]]
       c == x.p[t[3]]
       how == Pick(1..6)
       e == << t[2], t[3] >>
   IN IF ~Halves(b, c) \/ FlatTri(a, b, c) THEN << >>
      ELSE IF how = 1 THEN << Op("spf", t, <<>>, a), x >>
      ELSE IF how = 2 THEN
        IF ~NoPillow(x.F, e[1], e[2]) THEN << >>
        ELSE << Op("spf", t, <<>>, Mid(b, c)),
             IF At(x, Mid(b, c)) # {} THEN x ELSE [x EXCEPT !.F = SplitEdge(x.F, e[1], e[2], New(x)), !.p = Append(x.p, Mid(b, c))] >>
      ELSE IF ~Halves(a, Mid(b, c)) THEN << >>
      ELSE LET q == Mid(a, Mid(b, c))
           IN << Op("spf", t, <<>>, q), [x EXCEPT !.F = SplitFace(x.F, Canon(t), New(x)), !.p = Append(x.p, q)] >>
EditCollapse(x) == IF x.F = {} \/ Len(x.p[1]) = 2 THEN << >> ELSE
   LET far == Pick(1..12)
       e == IF far = 1 THEN << Pick(Used(x.F)), Pick(Used(x.F)) >> ELSE Pick(Spokes(x.F))
   IN IF e[1] = e[2] \/ ~Halves(x.p[e[1]], x.p[e[2]]) \/ ~OneFan(x.F, e[1]) \/ ~OneFan(x.F, e[2]) THEN << >>
      ELSE << Op("col", e, <<>>, <<>>), IF CanCollapse(x, e[1], e[2]) THEN CollapseMesh(x, e[1], e[2]) ELSE x >>
\* the ends are merged at one of them, at their middle, or between the first and another corner
EditCollapseTo(x) == IF x.F = {} \/ Len(x.p[1]) = 2 THEN << >> ELSE
   LET far == Pick(1..12)
       e == IF far = 1 THEN << Pick(Used(x.F)), Pick(Used(x.F)) >> ELSE Pick(Spokes(x.F))
       how == Pick(1..4)
       w == CASE how = 1 -> e[1] [] how = 2 -> e[2] [] how = 3 -> e[2] [] how = 4 -> Pick(Nbrs(x.F, e[1]))
       f == << Pick(0..1), Pick(0..1), Pick(0..1) >>
   IN IF e[1] = e[2] \/ ~OneFan(x.F, e[1]) \/ ~OneFan(x.F, e[2]) \/ (how > 2 /\ ~Halves(x.p[e[1]], x.p[w])) THEN << >>
      ELSE LET q == IF how > 2 THEN Mid(x.p[e[1]], x.p[w]) ELSE x.p[w]
           IN << Op("cop", e, << f >>, q), IF CanCollapseTo(x, e[1], e[2], q, f[1] = 1, f[2] = 1) THEN CollapseTo(x, e[1], e[2], q) ELSE x >>
EditGetV(x) == LET old == Pick(1..2)
                   v == Pick(Live(x))
                   w == Pick(Live(x))
                   q == IF old = 1 \/ ~Halves(x.p[v], x.p[w]) THEN x.p[v] ELSE Mid(x.p[v], x.p[w])
               IN << Op("getv", <<>>, <<>>, q), IF At(x, q) # {} THEN x ELSE [x EXCEPT !.p = Append(x.p, q)] >>
EditLoops(x) == << Op("loops", <<>>, <<>>, <<>>), x >>

Kinds(q) == CASE q = 1 -> << "addt", "fill", "fill", "addm", "remt", "remt", "remm", "flip", "getv", "loops" >>
              [] q = 2 -> << "spe", "spe", "spf", "spf", "flip", "flip" >>
              [] q = 3 -> << "col", "col", "cop", "cop", "spe", "spf", "flip" >>
              [] q = 4 -> << "addt", "fill", "fill", "remt", "flip", "spe", "spf", "col", "cop", "getv", "remm", "addm" >>
              [] q = 5 -> << "spe", "spf" >>
Edit(k, x) == CASE k = "addt" -> EditAddT(x) [] k = "fill" -> EditFill(x) [] k = "addm" -> EditAddM(x)
                [] k = "remt" -> EditRemT(x) [] k = "remm" -> EditRemM(x) [] k = "flip" -> EditFlip(x)
                [] k = "spe" -> EditSplitE(x) [] k = "spf" -> EditSplitF(x) [] k = "col" -> EditCollapse(x)
                [] k = "cop" -> EditCollapseTo(x) [] k = "getv" -> EditGetV(x) [] k = "loops" -> EditLoops(x)

Change == \E k \in {Kinds(prof)[Pick(1..Len(Kinds(prof)))]} : \E r \in {Edit(k, m)} :
  IF r = << >> THEN idle' = idle + 1 /\ UNCHANGED << m, hist, todo, prof, done >>
  ELSE /\ m' = r[2] /\ hist' = Append(hist, r[1]) /\ UNCHANGED << todo, prof, idle, done >>
Finish == ~done /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([q |-> prof, ops |-> hist])) /\ UNCHANGED << m, hist, todo, prof, idle >>
Size == Len(Recipe(1)[1])
Next == IF todo # << >> THEN Put /\ UNCHANGED << prof, idle, done >>
        ELSE IF Cardinality({ i \in DOMAIN hist : hist[i].o \notin {"verts"} }) + idle >= MaxLen \/ Cardinality(m.F) > 30 THEN Finish
        ELSE Change
=============================================================================
