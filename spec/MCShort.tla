------------------------------- MODULE MCShort -------------------------------
(* Every shorthand with every small tuple of values, alone, after longhands, *)
(* before longhands, and with lists (C18).                                   *)
EXTENDS MCDoc

Boxes4 == {"margin", "padding", "border-radius", "border-width", "border-color"}
Family == [s \in Boxes4 |-> BoxProp[s]]
  @@ ("inset" :> Sides) @@ ("gap" :> <<"row-gap", "column-gap">>) @@ ("overflow" :> <<"overflow-x", "overflow-y">>)
  @@ ("background-position" :> <<"background-position-x", "background-position-y">>)
  @@ ("background" :> <<"background-color", "background-image">>)
  @@ [s \in DOMAIN BorderSideProps |-> <<"border-" \o BorderSideProps[s] \o "-width", "border-" \o BorderSideProps[s] \o "-color">>]
  @@ ("border" :> BoxProp["border-width"] \o BoxProp["border-color"])

Col1 == ColT(1, 2, 3)
Two == VarT("--v")
LenT == <<PxT(3), [t |-> "pct", n |-> 250], Two>>
Alphabet(s) ==
  CASE s \in {"margin", "inset"} -> LenT \o <<Kw("auto")>>
    [] s \in {"padding", "border-radius", "gap"} -> LenT \o <<Zero>>
    [] s \in {"border-width"} -> <<PxT(3), Zero, Two, Kw("bogus")>>
    [] s \in {"border-color"} -> <<Kw("red"), Col1, Kw("currentcolor"), VarT("--c")>>
    [] s = "overflow" -> <<Kw("hidden"), Kw("scroll"), Kw("visible"), Kw("bogus")>>
    [] s = "background" -> <<Kw("red"), Col1, Kw("none"), VarT("--c")>>
    [] s = "background-position" -> <<PxT(3), Zero, Two, Kw("bogus")>>
    [] OTHER -> <<PxT(3), Kw("solid"), Col1, Kw("none")>>
(* a longhand value which the shorthand competes with *)
Own(q) == CASE q \in ColorProps \cup {"background-color"} -> ColT(50, 60, 70)
            [] q \in DOMAIN Keywords -> Kw("scroll")
            [] q = "background-image" -> [t |-> "url", s |-> "own.png"]
            [] OTHER -> PxT(17)

RECURSIVE Tuples(_, _)
Tuples(a, n) == IF n = 0 THEN <<<<>>>> ELSE LET r == Tuples(a, n - 1)
                IN Flatten([i \in DOMAIN a |-> [j \in DOMAIN r |-> <<a[i]>> \o r[j]]])
Tops(s) == Tuples(Alphabet(s), 1) \o Tuples(Alphabet(s), 2) \o Tuples(Alphabet(s), 3)
           \o Tuples(IF Thorough THEN Alphabet(s) ELSE SubSeq(Alphabet(s), 1, 3), 4)
           \o Tuples(SubSeq(Alphabet(s), 1, 1), 5)
Lists(s) == IF s \notin {"background", "background-position"} THEN <<>>
            ELSE LET l == Tuples(Alphabet(s), 1) \o (IF s = "background" THEN <<>> ELSE Tuples(SubSeq(Alphabet(s), 1, 2), 2))
                 IN Flatten([i \in DOMAIN l |-> [j \in DOMAIN l |-> <<l[i], l[j]>>]])
                    \o [i \in DOMAIN l |-> <<l[i], l[1], l[Len(l)]>>]
(* declarations of an element: variant 0 alone, 1 after longhands, 2 before, 3 between and in other rules *)
Blocks(s) ==
  LET tops == Tops(s)
      lists == Lists(s)
      one == [i \in DOMAIN tops |-> [p |-> s, v |-> <<tops[i]>>]]
      more == [i \in DOMAIN lists |-> [p |-> s, v |-> lists[i]]]
      all == one \o more
      f == Family[s]
      own(n, l) == LET q == f[1 + (n % Len(f))]
                   IN IF q \in BgProps /\ l THEN [p |-> q, v |-> <<<<Own(q)>>, <<Own(q)>>, <<Own(q)>>>>] ELSE [p |-> q, v |-> <<<<Own(q)>>>>]
  IN <<>> \o [n \in 1..(3 * Len(all)) |->
        LET i == 1 + ((n - 1) % Len(all))
            var == (n - 1) \div Len(all)
        IN CASE var = 0 -> <<all[i]>>
             [] var = 1 -> <<own(0, TRUE), own(1, i % 2 = 0), all[i]>>
             [] var = 2 -> <<own(i, FALSE), all[i], own(i + 1, i % 3 = 0)>>]

Size == 36
DocOf(bl) ==
  Doc(Body([i \in DOMAIN bl |-> El("i", <<At_("class", "x" \o ToString(i))>>, <<>>)]),
      <<Rule(<<One(<<Tag("body")>>)>>, <<Decl("--v", <<PxT(4), PxT(6)>>), Decl("--c", <<ColT(9, 9, 9)>>), Decl("color", <<ColT(10, 20, 30)>>)>>)>>
      \o [i \in DOMAIN bl |-> Rule(<<One(<<Cls("x" \o ToString(i))>>)>>, bl[i])])
Steps_ == <<St(Obj(<<>>), 0, <<>>)>>

VARIABLES s, c, bl, rest
vars == <<s, c, bl, rest>>
Key == <<s, c>>
Init == s \in DOMAIN Family /\ c = 0 /\ bl = <<>> /\ rest = Blocks(s)
Next == /\ rest # <<>> /\ c' = c + 1 /\ s' = s
        /\ bl' = SubSeq(rest, 1, Min(Size, Len(rest)))
        /\ rest' = SubSeq(rest, Size + 1, Len(rest))
        /\ Emit_(DocOf(bl'), Steps_)

(* ---- what CSS says ---- *)
Vars_ == ("--v" :> <<PxT(4), PxT(6)>>) @@ ("--c" :> <<ColT(9, 9, 9)>>)
Pick(ts, side) ==    \* 1 top 2 right 3 bottom 4 left
  CASE side = 1 -> ts[1]
    [] side = 2 -> IF Len(ts) >= 2 THEN ts[2] ELSE ts[1]
    [] side = 3 -> IF Len(ts) >= 3 THEN ts[3] ELSE ts[1]
    [] side = 4 -> IF Len(ts) >= 4 THEN ts[4] ELSE IF Len(ts) >= 2 THEN ts[2] ELSE ts[1]
Longs(q, ts) ==
  LET n == Len(ts)
  IN CASE q \in Boxes4 -> IF n \in 1..4 THEN [i \in 1..4 |-> <<BoxProp[q][i], Pick(ts, i)>>] ELSE <<>>
       [] q = "inset" -> IF n = 1 \/ n = 4 THEN [i \in 1..4 |-> <<Sides[i], Pick(ts, i)>>] ELSE <<>>
       [] q \in {"gap", "overflow", "background-position"} ->
            IF n \in {1, 2} THEN << <<Family[q][1], ts[1]>>, <<Family[q][2], ts[n]>> >> ELSE <<>>
       [] q = "background" -> IF n = 1 THEN << <<"background-image", Kw("none")>>, <<"background-color", ts[1]>> >> ELSE <<>>
       [] q = "border" -> IF ts = <<Kw("none")>> THEN [i \in 1..8 |-> <<Family[q][i], IF i <= 4 THEN Zero ELSE Kw("currentcolor")>>]
                          ELSE IF n = 3 THEN [i \in 1..8 |-> <<Family[q][i], IF i <= 4 THEN ts[1] ELSE ts[3]>>] ELSE <<>>
       [] OTHER -> IF n = 3 THEN << <<Family[q][1], ts[1]>>, <<Family[q][2], ts[3]>> >> ELSE <<>>
(* a declaration as declarations of longhands; lists are longhands of lists *)
AsLonghands(dd) ==
  LET layers == [l \in DOMAIN dd.v |-> Longs(dd.p, Subst(dd.v[l], Vars_, {}))]
      full == {l \in DOMAIN layers : layers[l] # <<>>}
  IN IF full # DOMAIN layers THEN <<>>
     ELSE [i \in DOMAIN layers[1] |-> [p |-> layers[1][i][1], v |-> [l \in DOMAIN layers |-> <<layers[l][i][2]>>]]]
Equal == \A i \in DOMAIN bl :
  LET b == bl[i]
      long == Flatten([j \in DOMAIN b |-> IF b[j].p \in DOMAIN Family THEN AsLonghands(b[j]) ELSE <<b[j]>>])
      whole == \A j \in DOMAIN b : b[j].p \notin DOMAIN Family \/ Len(b[j].v) = 1 \/ AsLonghands(b[j]) # <<>>
      acc == [vars |-> Vars_, cs |-> <<>>]
  IN whole => Block(b, acc) = Block(long, acc)
=============================================================================
