------------------------------- MODULE MCBind -------------------------------
(* Every form of binding under every change from one kind of value to another *)
(* (C01, C02, C03, C06). What is displayed is restated as a table.            *)
EXTENDS MCDoc

Half == [t |-> "d", s |-> "-1.5", m |-> 0 - 1500]
(* the kinds of values, the first stands for a missing field *)
Kinds == <<Null, Null, Bool(TRUE), Bool(FALSE), Num(0), Num(5), Half, Str(""), Str("x"), Arr(<<>>), Arr(<<Str("x"), Num(7), Null>>),
           Obj(<<>>), Obj(<< <<"0", Bool(TRUE)>>, <<"x", Str("in")>> >>)>>
TextK == <<"", "", "true", "false", "0", "5", "-1.5", "", "x", "[array]", "[array]", "{object}", "{object}">>
TrueK == {3, 6, 7, 9, 11, 12, 13}
N == Len(Kinds)

Ed(path) == [t |-> "e", e |-> Ex(path, <<>>)]
T == <<"t">>
O == <<"o", "p">>
Div(bs, kids) == El("div", bs, kids)
Txt(spans) == Tx(spans)
(* [el: definition, is: <<what is expected as a function of the kinds of t and o.p>>] *)
Forms == <<
  Div(<<>>, <<Txt(<<Lit("a"), Sp(T), Lit("b")>>)>>),
  Div(<<>>, <<Txt(<<Sp(T)>>)>>),
  Div(<<>>, <<Txt(<<Sp(T), Sp(O)>>)>>),
  Div(<<>>, <<Txt(<<Lit("Hi"), Sp(O)>>)>>),
  Div(<<>>, <<Txt(<<Sp(<<"t", "x">>), Lit("/"), Sp(<<"t", "0">>), Lit("/"), Sp(<<"t", "0", "x">>)>>)>>),
  Div(<<Bd("a", <<Lit("Hi "), Sp(T), Lit("y")>>)>>, <<>>),
  Div(<<Bd("a", <<Sp(T), Lit(" "), Sp(O)>>), Bd("b", <<Sp(<<"t", "x">>)>>)>>, <<>>),
  Div(<<Fl("f", T)>>, <<>>),
  Div(<<At_("f", "was"), Fl("f", T)>>, <<>>),
  Div(<<Fl("f", O), Fl("g", <<"t", "x">>), Bd("h", <<Sp(O)>>)>>, <<>>),
  Div(<<>>, <<El("p", <<Vis(TRUE, T)>>, <<Txt(<<Sp(T)>>)>>), El("q", <<Vis(FALSE, T)>>, <<Txt(<<Sp(O)>>)>>)>>),
  Div(<<>>, <<El("p", <<Vis(TRUE, <<"t", "x">>)>>, <<>>), El("q", <<Vis(FALSE, O)>>, <<El("p", <<Vis(TRUE, T)>>, <<>>)>>)>>),
  Div(<<>>, <<El("p", <<Rep("it", 2, T)>>, <<Txt(<<Sp(<<"it">>)>>)>>)>>),
  Div(<<>>, <<El("p", <<Rep("it", 4, O)>>, <<Txt(<<Sp(<<"it">>), Sp(T)>>)>>), El("q", <<>>, <<>>)>>),
  Div(<<Ali("z", <<"o">>)>>, <<Txt(<<Sp(<<"z", "p">>)>>)>>) >>

TheDoc == Doc(Body(Forms), <<>>)
Val(i, j) == Obj((IF i = 1 THEN <<>> ELSE << <<"t", Kinds[i]>> >>)
                 \o (IF j = 1 THEN <<>> ELSE << <<"o", Obj(<< <<"p", Kinds[j]>> >>)>> >>))
Word == <<>> \o Tour(N)
Jof(n) == 1 + ((Word[n] * 5 + n * 3) % N)
Values_ == [n \in DOMAIN Word |-> Val(Word[n], Jof(n))]

VARIABLES k, doc, inst, flat
vars == <<k, doc, inst, flat>>
Key == k
Init == /\ k = 0 /\ doc = TheDoc /\ inst = Instantiate(TheDoc) /\ flat = <<>>
        /\ Emit_(TheDoc, [n \in DOMAIN Word |-> St(Values_[n], 0, <<>>)])
Next == k < Len(Word) /\ k' = k + 1 /\ flat' = Display(inst, Values_[k + 1]) /\ UNCHANGED <<doc, inst>>

(* ---- the table ---- *)
i_ == Word[k]
j_ == Jof(k)
Sub(i) == IF i = 13 THEN "in" ELSE ""              \* text of t.x
First_(i) == CASE i = 11 -> "x" [] i = 13 -> "true" [] OTHER -> ""
ItemsK(i) == IF i = 11 THEN <<"x", "7", "">> ELSE <<>>
Flag(b, key) == IF b THEN (key :> key) ELSE <<>>
P(text) == [tag |-> "p", tx |-> text]
Q(text) == [tag |-> "q", tx |-> text]
Some(b, x) == IF b THEN <<x>> ELSE <<>>
Expected == LET i == i_ j == j_ t == TextK[i_] o == TextK[j_] IN <<
  <<"a" \o t \o "b", <<>>, <<>> >>,
  <<t, <<>>, <<>> >>,
  <<t \o o, <<>>, <<>> >>,
  <<"Hallo" \o o, <<>>, <<>> >>,
  <<Sub(i) \o "/" \o First_(i) \o "/", <<>>, <<>> >>,
  <<"", ("a" :> ("Hi " \o t \o "y")), <<>> >>,
  <<"", ("a" :> (t \o " " \o o)) @@ ("b" :> Sub(i)), <<>> >>,
  <<"", Flag(i \in TrueK, "f"), <<>> >>,
  <<"", Flag(i \in TrueK, "f"), <<>> >>,
  <<"", Flag(j \in TrueK, "f") @@ Flag(i = 13, "g") @@ ("h" :> o), <<>> >>,
  <<"", <<>>, IF i \in TrueK THEN <<P(t)>> ELSE <<Q(o)>> >>,
  <<"", <<>>, Some(i = 13, P("")) \o Some(j \notin TrueK, Q("")) >>,
  <<"", <<>>, IF i = 11 THEN <<P("x"), P("7")>> ELSE <<>> >>,
  <<"", <<>>, (IF j = 11 THEN <<P("x" \o t), P("7" \o t), P(t)>> ELSE <<>>) \o <<Q("")>> >>,
  <<o, <<>>, <<>> >> >>

TopKids == SelectSeq([n \in DOMAIN flat |-> n], LAMBDA n : flat[n].par = 1)
ElKids(n) == SelectSeq([m \in DOMAIN flat |-> m], LAMBDA m : flat[m].par = n /\ flat[m].k = "el")
TxOf(n) == Join([m \in DOMAIN flat |-> IF flat[m].par = n /\ flat[m].k = "tx" THEN flat[m].tx ELSE ""])
Shows == k > 0 => \A n \in DOMAIN TopKids :
  LET at == TopKids[n]
      e == Expected[n]
  IN /\ TxOf(at) = e[1]
     /\ flat[at].at = e[2]
     /\ Len(ElKids(at)) = Len(e[3])
     /\ \A m \in DOMAIN e[3] : flat[ElKids(at)[m]].tag = e[3][m].tag /\ TxOf(ElKids(at)[m]) = e[3][m].tx
=============================================================================
