------------------------------- MODULE MCInherit -------------------------------
(* Three nested elements, each with every set of declarations of inherited   *)
(* properties and variables (chains, cycles, undefined ones), while the       *)
(* outermost goes through all sets in every order (C17, C14, C16). A variable *)
(* is restated as a search in a list of declarations, inherited properties as *)
(* the nearest element which declares them.                                  *)
EXTENDS MCDoc

Col(n) == ColT(10 * n, n, 200 - n)
V(name) == VarT(name)
(* sequences of <<property, token>> *)
Sets == <<
  <<>>,
  << <<"color", Col(1)>>, <<"font-size", PxT(20)>>, <<"opacity", NumT(500)>>, <<"font-style", Kw("italic")>> >>,
  << <<"--v", Col(2)>>, <<"pointer-events", Kw("none")>> >>,
  << <<"color", V("--v")>>, <<"width", [t |-> "em", n |-> 2000]>> >>,
  << <<"--v", V("--w")>>, <<"font-weight", Kw("bold")>> >>,
  << <<"--w", Col(3)>>, <<"font-size", [t |-> "em", n |-> 1500]>> >>,
  << <<"--v", V("--w")>>, <<"--w", V("--v")>>, <<"color", V("--v")>> >>,
  << <<"color", V("--u")>>, <<"--u", V("--v")>>, <<"text-align", Kw("center")>> >>,
  << <<"--u", Col(4)>>, <<"color", V("--u")>>, <<"--u", Col(5)>>, <<"font-size", V("--u")>> >>,
  << <<"--w", V("--none")>>, <<"color", Kw("currentcolor")>>, <<"font-family", [t |-> "str", s |-> "serif"]>> >>,
  << <<"--v", V("--v")>>, <<"color", Col(6)>>, <<"pointer-events", V("--v")>> >>,
  << <<"font-size", [t |-> "pct", n |-> 500]>>, <<"font-weight", NumT(900000)>>, <<"--u", V("--w")>> >> >>
N == Len(Sets)
First_ == << <<"color", V("--v")>>, <<"border-left-color", V("--w")>> >>
Last_ == << <<"border-top-color", V("--v")>>, <<"border-right-color", V("--u")>>, <<"border-bottom-color", Kw("currentcolor")>>, <<"margin-left", [t |-> "em", n |-> 1000]>> >>
Ds(ps) == [i \in DOMAIN ps |-> Decl(ps[i][1], <<ps[i][2]>>)]

Leaf(m, l) == El("i", <<At_("class", "s" \o ToString(l))>>, IF (m + l) % 4 = 0 THEN <<Tx(<<Lit("x")>>)>> ELSE <<>>)
(* a document has a third of the sets in the middle *)
Mids(c) == SelectSeq([i \in 1..N |-> i], LAMBDA i : i % 3 = c)
DocOf(c) ==
  Doc(Body(<<El("div", <<Bd("class", <<Lit("s"), Sp(<<"c">>)>>)>>,
                [j \in DOMAIN Mids(c) |-> El("p", <<At_("class", "s" \o ToString(Mids(c)[j]))>>, [l \in 1..N |-> Leaf(Mids(c)[j], l)])]),
             El("q", <<>>, <<Tx(<<Lit("y")>>)>>)>>),
      <<Rule(<<One(<<Tag("i")>>)>>, Ds(First_))>>
      \o [n \in 1..N |-> Rule(<<One(<<Cls("s" \o ToString(n))>>)>>, Ds(Sets[n]))]
      \o <<Rule(<<One(<<Tag("i")>>)>>, Ds(Last_))>>)

Word == <<>> \o (IF Thorough THEN Tour(N) ELSE [i \in 1..(2 * N + 1) |-> IF i <= N THEN i ELSE 1 + ((i * 5) % N)])
Val(n) == Obj(<< <<"c", Num(n)>> >>)

VARIABLES c, k, cur, flat, doc, inst
vars == <<c, k, cur, flat, doc, inst>>
Key == <<c, k>>
Init == /\ c \in 0..2 /\ k = 0 /\ doc = DocOf(c) /\ inst = Instantiate(doc) /\ cur = <<>> /\ flat = <<>>
        /\ Emit_(doc, [n \in DOMAIN Word |-> St(Val(Word[n]), 0, <<>>)])
Next == /\ k < Len(Word) /\ k' = k + 1
        /\ flat' = Display(inst, Val(Word[k + 1]))
        /\ cur' = Styles(doc, flat', [hov |-> {}, act |-> {}, foc |-> {}], <<>>, St(Val(Word[k + 1]), 0, <<>>))
        /\ UNCHANGED <<c, doc, inst>>

(* ---- restated ---- *)
Nil == [t |-> "none"]
(* the latest declaration of a variable in a list of declarations, through others; a way longer than the names there are is a cycle *)
RECURSIVE Means(_, _, _)
Means(x, list, fuel) ==
  IF x.t # "var" THEN x
  ELSE LET hit == {i \in DOMAIN list : list[i][1] = x.s}
       IN IF hit = {} \/ fuel = 0 THEN Nil
          ELSE Means(list[CHOOSE i \in hit : \A j \in hit : j <= i][2], list, fuel - 1)
(* the meaning of the last declaration of a property among those of an element, after those of its ancestors *)
Own(p, above, mine) ==
  LET hit == {i \in DOMAIN mine : mine[i][1] = p}
      at == CHOOSE i \in hit : \A j \in hit : j <= i
  IN IF hit = {} THEN Nil ELSE Means(mine[at][2], above \o SubSeq(mine, 1, at), 4)
(* levels: the lists of declarations of the ancestors from body and of the element itself *)
Above(levels) == Flatten(SubSeq(levels, 1, Len(levels) - 1))
Mine(levels) == levels[Len(levels)]
Outer(levels) == SubSeq(levels, 1, Len(levels) - 1)
RECURSIVE ColorAt(_), SizeAt(_), KeywordAt(_, _, _, _)
ColorAt(levels) ==
  IF levels = <<>> THEN <<0, 0, 0, 255>>
  ELSE LET x == Own("color", Above(levels), Mine(levels))
       IN IF x.t = "col" THEN x.c ELSE ColorAt(Outer(levels))      \* currentcolor is the same as none
SizeAt(levels) ==
  IF levels = <<>> THEN 16000
  ELSE LET x == Own("font-size", Above(levels), Mine(levels))
       IN CASE x.t = "px" -> x.n [] x.t = "em" -> (SizeAt(Outer(levels)) * x.n) \div 1000
            [] x.t = "pct" -> (SizeAt(Outer(levels)) * x.n) \div 1000 [] OTHER -> SizeAt(Outer(levels))
KeywordAt(p, levels, map, base) ==
  IF levels = <<>> THEN base
  ELSE LET x == Own(p, Above(levels), Mine(levels))
       IN IF x.t # "none" /\ x \in DOMAIN map THEN map[x] ELSE KeywordAt(p, Outer(levels), map, base)
ColorOr(x, other) == IF x.t = "col" THEN x.c ELSE other

Fits(i, levels, isLeaf) ==
  LET s == Full(cur[i].style)
      here == Above(levels) \o Mine(levels)
  IN /\ s["color"] = ColorAt(levels)
     /\ s["font-size"] = SizeAt(levels)
     /\ s["font-style"] = KeywordAt("font-style", levels, (Kw("italic") :> "italic"), "normal")
     /\ s["font-weight"] = KeywordAt("font-weight", levels, (Kw("bold") :> 700) @@ (NumT(900000) :> 900), 400)
     /\ s["font-family"] = KeywordAt("font-family", levels, ([t |-> "str", s |-> "serif"] :> "serif"), "system-ui")
     /\ s["pointer-events"] = KeywordAt("pointer-events", levels, (Kw("none") :> "None"), "Auto")
     \* not inherited
     /\ s["opacity"] = (IF <<"opacity", NumT(500)>> \in SeqSet(Mine(levels)) THEN 500 ELSE 1000)
     /\ s["text-align"] = (IF <<"text-align", Kw("center")>> \in SeqSet(Mine(levels)) THEN "Center" ELSE "Start")
     /\ s["width"] = (IF <<"width", [t |-> "em", n |-> 2000]>> \in SeqSet(Mine(levels)) THEN <<"len", 2 * SizeAt(Outer(levels))>> ELSE <<"auto", 0>>)
     /\ isLeaf => /\ s["border-top-color"] = ColorOr(Means(V("--v"), here, 4), <<0, 0, 0, 0>>)
                  /\ s["border-right-color"] = ColorOr(Means(V("--u"), here, 4), <<0, 0, 0, 0>>)
                  /\ s["border-left-color"] = ColorOr(Means(V("--w"), Above(levels), 4), <<0, 0, 0, 0>>)
                  /\ s["border-bottom-color"] = ColorAt(Outer(levels))
                  /\ s["margin-left"] = <<"len", SizeAt(Outer(levels))>>

IndexOf(id) == CHOOSE i \in DOMAIN flat : flat[i].id = id
Flows == k > 0 =>
  LET top == <<Sets[Word[k]]>> IN
  /\ Fits(2, top, FALSE)
  /\ Fits(Len(flat) - 1, << <<>> >>, FALSE)
  /\ \A j \in DOMAIN Mids(c) :
       LET m == Append(top, Sets[Mids(c)[j]]) IN
       /\ Fits(IndexOf(<<1, 0, j, 0>>), m, FALSE)
       /\ \A l \in 1..N : Fits(IndexOf(<<1, 0, j, 0, l, 0>>), Append(m, First_ \o Sets[l] \o Last_), TRUE)
(* a text has what its element has, of what is inherited *)
Texts == k > 0 => \A i \in DOMAIN flat : flat[i].k = "tx" =>
  \A p \in InheritedProps : Sty(cur[i].style, p) = Sty(cur[flat[i].par].style, p)
=============================================================================
