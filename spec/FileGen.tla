------------------------------ MODULE FileGen ------------------------------
(* Mesh documents: small meshes written in one of the formats, with other   *)
(* lines in between, damaged in up to three places.                         *)
EXTENDS MeshFile, TLC, Json
VARIABLES fmt, doc, left, done
Pick(S) == RandomElement(S)
Tri(n) == [i \in 1..3 |-> Pick(1..n)]
Row(n, k) == SelectSeq([i \in 1..k |-> Tri(n)], LAMBDA t : Cardinality({t[1], t[2], t[3]}) = 3)
Whole(w, t) == IF w = "dec" THEN t ELSE Tok(w, t.v \div 4)
Style(t) == IF t.w = "dec" /\ t.v % 4 = 0 THEN Whole(<< "int", "exp", "dec" >>[Pick(1..3)], t) ELSE t
Dress(f, l) == IF f = "obj" /\ l.k = "f" THEN IF Pick(1..2) = 1 THEN l ELSE Line("f", [i \in DOMAIN l.a |-> Tok("slash", l.a[i].v)])
               ELSE IF l.k \in {"v", "vertex"} THEN Line(l.k, [i \in DOMAIN l.a |-> Style(l.a[i])]) ELSE l
Init == fmt \in {"obj", "off", "stl"} /\ doc = <<>> /\ left = -1 /\ done = FALSE
Build == /\ left = -1
         /\ \E n \in {Pick(3..6)}, k \in {Pick(0..5)}, b \in {Pick(1..5)} :
            \E p \in {[i \in 1..n |-> << Pick(-9..9), Pick(-9..9), Pick(-9..9) >>]}, fs \in {Row(n, k)} :
            \E d \in {Write(fmt, p, fs)} :
              doc' = [i \in DOMAIN d |-> Dress(fmt, d[i])] /\ left' = << 0, 1, 1, 2, 3 >>[b]
         /\ UNCHANGED <<fmt, done>>
Styles == << "int", "int", "int", "int", "dec", "exp", "slash", "big", "word", "nan", "inf", "over" >>
Odd(k) == Tok(Styles[Pick(1..12)], IF Pick(1..12) = 1 THEN 1000000000 ELSE Pick(-2..8))
Extra == << "#", "", "vn", "vt", "o", "g", "s", "usemtl", "facet", "endfacet", "endsolid", "solid", "outer", "endloop", "vertex", "v", "f", "OFF" >>
\* u and j choose a token of line i and another line, t is a token and x a word
Change(d, c, i, u, j, t, x) ==
  LET l == d[i]
      n == Len(l.a)
      q == IF n = 0 THEN 0 ELSE (u % n) + 1
      r == u % (n + 1)
  IN CASE c <= 6 /\ n > 0 -> [d EXCEPT ![i].a[q] = t]
       [] c <= 8 /\ n > 0 -> [d EXCEPT ![i].a = SubSeq(@, 1, q - 1) \o SubSeq(@, q + 1, n)]
       [] c <= 9 -> [d EXCEPT ![i].a = SubSeq(@, 1, r) \o << t >> \o SubSeq(@, r + 1, n)]
       [] c = 10 -> SubSeq(d, 1, i - 1) \o SubSeq(d, i + 1, Len(d))
       [] c = 11 -> SubSeq(d, 1, i) \o SubSeq(d, i, Len(d))
       [] c = 12 -> SubSeq(d, 1, i)
       [] c = 13 -> [d EXCEPT ![i] = d[j], ![j] = d[i]]
       [] c = 14 -> [d EXCEPT ![i].k = x]
       [] OTHER -> SubSeq(d, 1, i) \o << Line(x, << t >>) >> \o SubSeq(d, i + 1, Len(d))
Damage == /\ left > 0 /\ doc # <<>>
          /\ \E c \in {Pick(1..16)}, i \in {Pick(1..Len(doc))}, u \in {Pick(0..11)}, j \in {Pick(1..Len(doc))}, t \in {Odd(left)}, x \in {Extra[Pick(1..Len(Extra))]} :
               doc' = Change(doc, c, i, u, j, t, x)
          /\ left' = left - 1 /\ UNCHANGED <<fmt, done>>
Finish == /\ left >= 0 /\ ~done /\ (left = 0 \/ doc = <<>>)
          /\ done' = TRUE /\ PrintT("BEHAVIOUR " \o ToJson([fmt |-> fmt, doc |-> doc])) /\ UNCHANGED <<fmt, doc, left>>
Next == Build \/ Damage \/ Finish
=============================================================================
