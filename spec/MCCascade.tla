------------------------------- MODULE MCCascade -------------------------------
(* Three rules with every triple of blocks of declarations and an inline      *)
(* style, while every subset of the rules starts and stops to match in every  *)
(* order (C14, C16, C17, C06). What a block means is restated as a table.     *)
EXTENDS MCDoc

U(s) == [t |-> "url", s |-> s]
Col(n) == ColT(n, n, n)
Lay(p, layers) == [p |-> p, v |-> layers]
Len_(n) == <<"len", n * 1000>>
Four3(ps, why) == [i \in 1..4 |-> <<ps[i], 0, why>>]
All4(ps, v) == [i \in 1..4 |-> <<ps[i], v>>]
Margins == BoxProp["margin"]
Widths_ == BoxProp["border-width"]
Colors_ == BoxProp["border-color"]
Rgb(n) == <<n, n, n, 255>>
None4 == <<0, 0, 0, 0>>
(* [ds: the declarations, is: <<longhand, value>> or <<longhand, 0, why it has another>> in order] *)
B(ds, is) == [ds |-> ds, is |-> is]
Blocks ==
  << B(<<Decl("width", <<PxT(1)>>), Decl("cursor", <<Kw("help")>>), Decl("opacity", <<NumT(500)>>)>>,
       << <<"width", Len_(1)>>, <<"cursor", "Help">>, <<"opacity", 500>> >>),
     B(<<Decl("width", <<PxT(2)>>), Decl("width", <<Kw("bogus")>>), Decl("cursor", <<Kw("wait")>>)>>,
       << <<"width", 0, "bad">>, <<"cursor", "Wait">> >>),
     B(<<Decl("margin", <<PxT(3), PxT(4)>>), Decl("cursor", <<Kw("bogus")>>)>>,
       << <<"margin-top", Len_(3)>>, <<"margin-right", Len_(4)>>, <<"margin-bottom", Len_(3)>>, <<"margin-left", Len_(4)>>, <<"cursor", 0, "bad">> >>),
     B(<<Decl("margin-left", <<PxT(5)>>), Decl("margin", <<PxT(1), PxT(2), PxT(3), PxT(4), PxT(5)>>), Decl("color", <<Col(5)>>)>>,
       << <<"margin-left", Len_(5)>>, <<"color", Rgb(5)>> >>),
     B(<<Lay("background-image", <<<<U("a.png")>>, <<U("b.png")>>>>), Decl("background-color", <<Col(6)>>)>>,
       << <<"img", <<"a.png", "b.png">>>>, <<"col", <<Rgb(6)>>>> >>),
     B(<<Lay("background", <<<<Col(7)>>, <<Col(8)>>, <<Col(9)>>>>)>>,
       << <<"img", <<"none", "none", "none">>>>, <<"col", <<Rgb(7), Rgb(8), Rgb(9)>>>> >>),
     B(<<Decl("background", <<Col(10)>>), Decl("color", <<Kw("bogus")>>)>>,
       << <<"img", <<"none">>>>, <<"col", <<Rgb(10)>>>>, <<"color", 0, "bad">> >>),
     B(<<Decl("border", <<PxT(6), Kw("solid"), Col(11)>>), Decl("border-left-width", <<PxT(7)>>), Decl("opacity", <<Kw("bogus")>>)>>,
       All4(Widths_, Len_(6)) \o All4(Colors_, Rgb(11)) \o << <<"border-left-width", Len_(7)>>, <<"opacity", 0, "bad">> >>),
     B(<<Decl("border", <<Kw("none")>>), Decl("border-top-color", <<Col(12)>>), Decl("width", <<VarT("--own")>>), Decl("margin", <<VarT("--no")>>)>>,
       All4(Widths_, Len_(0)) \o Four3(Colors_, "cur") \o << <<"border-top-color", Rgb(12)>>, <<"width", 0, "own">> >> \o Four3(Margins, "bad")),
     B(<<Decl("--own", <<PxT(8)>>), Decl("width", <<VarT("--own")>>), Decl("background-color", <<Col(13)>>), Decl("border-width", <<PxT(9), Zero>>)>>,
       << <<"--own", Len_(8)>>, <<"width", 0, "own">>, <<"col", <<Rgb(13)>>>>, <<"border-top-width", Len_(9)>>, <<"border-right-width", Len_(0)>>,
          <<"border-bottom-width", Len_(9)>>, <<"border-left-width", Len_(0)>> >>),
     B(<<>>, <<>>) >>
N == Len(Blocks)
(* inline styles, as text and as block *)
Inline == << [s |-> "", b |-> 11], [s |-> "margin: 3px 4px; cursor: bogus;", b |-> 3],
             [s |-> "background-image: url(\"a.png\"), url(\"b.png\"); background-color: rgb(6, 6, 6);", b |-> 5],
             [s |-> "border: none; border-top-color: rgb(12, 12, 12); width: var(--own); margin: var(--no);", b |-> 9] >>
NI == Len(Inline)

(* the classes of an element: a and a number, if the first rule matches, and so on *)
Elem(i, j, l) ==
  El("i", <<Bd("class", <<Sp(<<"a">>), Lit(ToString(i)), Lit(" "), Sp(<<"b">>), Lit(ToString(j)), Lit(" "), Sp(<<"c">>), Lit(ToString(l))>>),
            Bd("style", <<Sp(<<"s">>)>>)>>, <<>>)
(* a document has one first rule; Latin: the third ones follow from the others *)
Pairs == IF Thorough THEN [n \in 1..(N * N) |-> <<1 + ((n - 1) \div N), 1 + ((n - 1) % N)>>]
         ELSE [n \in 1..(3 * N) |-> <<1 + ((n - 1) % N), 1 + ((((n - 1) % N) * 2 + ((n - 1) \div N) * 4) % N)>>]
DocOf(i) ==
  [Doc(Body([n \in DOMAIN Pairs |-> Elem(i, Pairs[n][1], Pairs[n][2])]),
       [n \in 1..(3 * N) |-> Rule(<<One(<<Cls(<<"a", "b", "c">>[1 + ((n - 1) \div N)] \o ToString(1 + ((n - 1) % N)))>>)>>, Blocks[1 + ((n - 1) % N)].ds)])
   EXCEPT !.inl = [n \in 1..(NI - 1) |-> [s |-> Inline[n + 1].s, ds |-> Blocks[Inline[n + 1].b].ds]]]

(* symbols: a subset of the rules and an inline style *)
NS == 8 * NI
Has_(y, r) == ((y - 1) \div r) % 2 = 1        \* r: 1, 2, 4
Ili(y) == 1 + ((y - 1) \div 8)
ValOf(y) == Obj(<< <<"a", Str(IF Has_(y, 1) THEN "a" ELSE "-")>>, <<"b", Str(IF Has_(y, 2) THEN "b" ELSE "-")>>,
                   <<"c", Str(IF Has_(y, 4) THEN "c" ELSE "-")>>, <<"s", Str(Inline[Ili(y)].s)>> >>)
Word == <<>> \o [n \in 1..(IF Thorough THEN 4 * NS ELSE NS + 6) |->
          1 + ((CASE n <= NS -> n * 13 [] n <= 2 * NS -> n * 7 + n \div 8 [] n <= 3 * NS -> n * 5 + n \div 5 [] OTHER -> n * 11 + n \div 3) % NS)]

VARIABLES i, k, cur, doc, inst
vars == <<i, k, cur, doc, inst>>
Key == <<i, k>>
Init == /\ i \in 1..N /\ k = 0 /\ doc = DocOf(i) /\ inst = Instantiate(doc) /\ cur = <<>>
        /\ Emit_(doc, [n \in DOMAIN Word |-> St(ValOf(Word[n]), 0, <<>>)])
Next == /\ k < Len(Word) /\ k' = k + 1
        /\ cur' = Styles(doc, Display(inst, ValOf(Word[k + 1])), [hov |-> {}, act |-> {}, foc |-> {}], <<>>, St(ValOf(Word[k + 1]), 0, <<>>))
        /\ UNCHANGED <<i, doc, inst>>

(* ---- restated: the last entry of a property ---- *)
Meaning(y, n) == (IF Has_(y, 1) THEN Blocks[i].is ELSE <<>>) \o (IF Has_(y, 2) THEN Blocks[Pairs[n][1]].is ELSE <<>>)
                 \o (IF Has_(y, 4) THEN Blocks[Pairs[n][2]].is ELSE <<>>) \o Blocks[Inline[Ili(y)].b].is
Latest(is, p) == LET hit == {m \in DOMAIN is : is[m][1] = p} IN IF hit = {} THEN 0 ELSE CHOOSE m \in hit : \A o \in hit : o <= m
ValueOf(is, p) ==
  LET m == Latest(is, p)
      o == Latest(SubSeq(is, 1, m), "--own")
  IN IF m = 0 THEN Defaults[p]
     ELSE IF Len(is[m]) = 2 THEN is[m][2]
     ELSE CASE is[m][3] = "bad" -> Defaults[p]
            [] is[m][3] = "own" -> IF o = 0 THEN Defaults[p] ELSE is[o][2]
            [] is[m][3] = "cur" -> <<0, 0, 0, 255>>                      \* the color of the parent
Layers_(is) ==
  LET list(p) == LET m == Latest(is, p) IN IF m = 0 THEN <<>> ELSE is[m][2]
      img == list("img") col == list("col")
      at(l, n, d) == IF n <= Len(l) THEN l[n] ELSE d
  IN StripLayers([n \in 1..Max(Len(img), Len(col)) |-> <<at(img, n, "none"), at(col, n, None4), 0, 0>>])
Watched == {"width", "opacity", "cursor", "color"} \cup SeqSet(Margins) \cup SeqSet(Widths_) \cup SeqSet(Colors_)
LastWins == k > 0 => \A n \in DOMAIN Pairs :
  LET f == Full(cur[1 + n].style)
      is == Meaning(Word[k], n)
  IN /\ \A p \in Watched : f[p] = ValueOf(is, p)
     /\ f["backgrounds"] = Layers_(is)
     /\ \A p \in DOMAIN Defaults \ (Watched \cup {"backgrounds"}) : f[p] = Defaults[p]
=============================================================================
