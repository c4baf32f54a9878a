------------------------------- MODULE MCPipes -------------------------------
(* All chains of up to two pipes (three: Thorough) in every kind of binding,  *)
(* while the value goes through all kinds in every order (C05). What a chain  *)
(* does is stated by laws between bindings of the same path.                  *)
EXTENDS MCDoc

Pipes_ == <<"not", "str", "len", "wrap", "inc", "first", "tail", "twice", "nil", "duration", "unknown">>
Half == [t |-> "d", s |-> "1.5", m |-> 1500]
Less == [t |-> "d", s |-> "-0.25", m |-> 0 - 250]
Kinds == <<Null, Bool(TRUE), Bool(FALSE), Num(0), Num(61), Num(0 - 3), Half, Less, Str(""), Str("x"), Arr(<<>>),
           Arr(<<Num(7)>>), Arr(<<Arr(<<Str("y"), Num(1)>>), Str("z"), Bool(FALSE)>>),
           Obj(<< <<"0", Str("in")>>, <<"x", Num(2)>> >>),
           Arr(<<Arr(<<Str("y"), Num(2)>>), Str("z"), Bool(FALSE)>>),      \* differs deep inside
           Obj(<< <<"0", Str("in")>>, <<"x", Num(3)>> >>)>>
N == Len(Kinds)

(* chains of a document: its head alone, and with every further pipe         *)
HeadsQ == {<<>>} \cup {<<Pipes_[i]>> : i \in DOMAIN Pipes_}
Heads_ == IF Thorough THEN HeadsQ \cup {<<Pipes_[i], Pipes_[j]>> : i \in DOMAIN Pipes_, j \in DOMAIN Pipes_} ELSE HeadsQ
Chains(h) == <<h>> \o [i \in DOMAIN Pipes_ |-> h \o <<Pipes_[i]>>]
P(c) == Ex(<<"t">>, c)
Spn(c) == [t |-> "e", e |-> P(c)]
Deep(c) == [t |-> "e", e |-> Ex(<<"t", "0">>, c)]
Elem(c) ==
  El("div", <<At_("class", "l"), [b |-> "tag", k |-> "f", e |-> P(c)], Bd("a", <<Lit("="), Spn(c)>>), Bd("d", <<Deep(c)>>),
              On("onmousedown", <<Spn(c), Spn(c), Deep(c)>>)>>,
     <<Tx(<<Spn(c), Lit("|"), Sp(<<"t">>)>>),
       El("p", <<[b |-> "vis", pos |-> TRUE, e |-> P(c)]>>, <<>>),
       El("q", <<[b |-> "vis", pos |-> FALSE, e |-> P(c)]>>, <<>>),
       El("b", <<[b |-> "repeat", k |-> "it", n |-> 3, e |-> P(c)]>>, <<Tx(<<Sp(<<"it">>)>>)>>)>>)
DocOf(h) == Doc(Body([i \in DOMAIN Chains(h) |-> Elem(Chains(h)[i])]),
                <<Rule(<<One(<<Cls("l")>>)>>, <<Decl("position", <<Kw("absolute")>>), Decl("left", <<PxT(0)>>), Decl("top", <<PxT(0)>>),
                              Decl("width", <<PxT(50)>>), Decl("height", <<PxT(50)>>)>>)>>)
Word == <<>> \o (IF Thorough THEN Tour(N) ELSE [i \in 1..(2 * N) |-> IF i <= N THEN i ELSE 1 + (((i - N) * 7) % N)])
Press_ == <<[e |-> "move", x |-> 10000, y |-> 10000], [e |-> "down", b |-> "Left"]>>
ValOf(i) == Obj(IF i = 1 THEN <<>> ELSE << <<"t", Kinds[i]>> >>)

VARIABLES h, k, doc, inst, flat
vars == <<h, k, doc, inst, flat>>
Key == <<h, k>>
Init == /\ h \in Heads_ /\ k = 0
        /\ doc = DocOf(h) /\ inst = Instantiate(doc) /\ flat = <<>>
        /\ Emit_(doc, [n \in DOMAIN Word |-> St(ValOf(Word[n]), 0, IF n % 3 = 0 THEN Press_ ELSE <<>>)])
Next == k < Len(Word) /\ k' = k + 1 /\ flat' = Display(inst, ValOf(Word[k + 1])) /\ UNCHANGED <<h, doc, inst>>

(* ---- laws ---- *)
Tops == SelectSeq([n \in DOMAIN flat |-> n], LAMBDA n : flat[n].par = 1)
Kids_(n) == SelectSeq([m \in DOMAIN flat |-> m], LAMBDA m : flat[m].par = n)
Index(name) == CHOOSE i \in DOMAIN Pipes_ : Pipes_[i] = name
(* what the element of a chain shows: [a, f, n, ...] *)
Show(n) == [text |-> flat[n].at["a"], flag |-> "f" \in DOMAIN flat[n].at,
            p |-> \E m \in DOMAIN Kids_(n) : flat[Kids_(n)[m]].tag = "p", q |-> \E m \in DOMAIN Kids_(n) : flat[Kids_(n)[m]].tag = "q",
            b |-> Len(SelectSeq(Kids_(n), LAMBDA m : flat[m].tag = "b"))]
Laws == k > 0 =>
  LET s0 == Show(Tops[1])
      S(name) == Show(Tops[1 + Index(name)])
      plain == EvalString(Kinds[Word[k]])
      list == s0.text = "=[array]" /\ ~In("str", h)
      truth(b) == IF b THEN "=true" ELSE "=false"
  IN /\ \A i \in DOMAIN Tops :       \* condition, flag and repeat follow the value, texts of others are not changed
          /\ Show(Tops[i]).p = Show(Tops[i]).flag /\ Show(Tops[i]).q = ~Show(Tops[i]).flag
          /\ Show(Tops[i]).text \notin {"=[array]", "=duration"} => Show(Tops[i]).b = 0
          /\ flat[Tops[i] + 1].tx = SubSeq(Show(Tops[i]).text, 2, Len(Show(Tops[i]).text)) \o "|" \o plain
     /\ h = <<>> => s0.text = "=" \o plain
     /\ S("unknown") = s0
     /\ S("not").text = truth(~s0.flag) /\ S("not").flag = ~s0.flag
     /\ S("str").text = s0.text /\ S("str").flag = (s0.text # "=") /\ S("str").b = 0
     /\ S("wrap").text = "=[" \o SubSeq(s0.text, 2, Len(s0.text)) \o "]" /\ S("wrap").flag
     /\ S("nil").text = "=" /\ ~S("nil").flag
     /\ S("len").b = 0 /\ (list => S("len").flag = s0.flag /\ (Min(3, s0.b) = 3 \/ S("len").text = "=" \o ToString(s0.b)))
     /\ list => /\ S("twice").b = Min(3, 2 * s0.b) /\ S("tail").text = s0.text /\ (s0.b < 3 => S("tail").b = (IF s0.b = 0 THEN 0 ELSE s0.b - 1))
                /\ S("inc") = s0 /\ S("duration") = s0
     /\ ~list => S("first") = s0 /\ S("tail") = s0 /\ S("twice") = s0
     /\ s0.text \in {"=true", "=false", "={object}"} => S("inc") = s0 /\ S("duration") = s0
=============================================================================
