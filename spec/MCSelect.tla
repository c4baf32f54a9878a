------------------------------- MODULE MCSelect -------------------------------
(* Every selector of up to three small compounds against every tree of three *)
(* elements under every assignment of classes, ids, attributes and presence, *)
(* reached from one another (C15, C16).                                      *)
EXTENDS MCDoc

C1 == << <<Star>>, <<Tag("p")>>, <<Cls("a")>>, <<[s |-> "id", n |-> "x"]>>, <<[s |-> "attr", n |-> "t", op |-> "", v |-> ""]>>,
         <<Cls("a"), Pc("hover")>>, <<Tag("p"), Cls("b"), [s |-> "attr", n |-> "class", op |-> "$=", v |-> "b"]>>, <<Tag("q"), Pc("nope")>> >>
C3 == << <<Star>>, <<Tag("p")>>, <<Cls("a")>> >>
Combs == <<">", "+">>

Singles == [i \in 1..8 |-> One(C1[i])]
Pair(i) == [parts |-> <<C1[1 + (i % 8)], C1[1 + ((i \div 8) % 8)]>>, combs |-> <<Combs[1 + ((i \div 64) % 2)]>>]
Pairs == [i \in 1..128 |-> Pair(i - 1)]
Triple(i) == [parts |-> <<C3[1 + (i % 3)], C3[1 + ((i \div 3) % 3)], C3[1 + ((i \div 9) % 3)]>>,
              combs |-> <<Combs[1 + ((i \div 27) % 2)], Combs[1 + ((i \div 54) % 2)]>>]
Triples == [i \in 1..108 |-> Triple(i - 1)]
Sels == Singles \o Pairs \o Triples
    \o << [parts |-> <<C1[3], C1[2]>>, combs |-> <<" ">>], [parts |-> <<C1[3], C1[2]>>, combs |-> <<"~">>],
          [parts |-> <<C1[1], C1[1], C1[1], C1[3]>>, combs |-> <<">", "+", ">">>], [parts |-> <<C1[1], C1[1], C1[1], C1[3]>>, combs |-> <<">", ">", ">">>],
          [parts |-> <<C1[2], C1[3], C1[3], C1[2]>>, combs |-> <<"+", "+", ">">>], [parts |-> <<C1[2], C1[3], C1[3], C1[2]>>, combs |-> <<">", "+", "+">>] >>

(* compounds of several attributes, one of which never changes *)
Att(n, op, x) == [s |-> "attr", n |-> n, op |-> op, v |-> x]
Many == << <<Att("u", "", ""), Att("u", "=", "k"), Att("t", "", "")>>, <<Att("t", "", ""), Att("u", "", "")>>,
           <<Att("class", "~=", "a"), Att("u", "", ""), Att("id", "=", "x")>>, <<Tag("p"), Att("u", "^=", "k"), Att("id", "", "")>>,
           <<Att("u", "", ""), Att("id", "", ""), Att("class", "$=", "b")>>, <<Tag("p"), Att("t", "=", "t")>>,
           <<Star, Att("u", "", ""), Att("u", "$=", "k"), Att("class", "*=", "a")>>, <<Att("id", "|=", "x"), Tag("q")>>,
           <<Tag("p"), Cls("a"), Att("t", "", "")>>, <<Att("u", "~=", "k"), Cls("b")>>,
           <<Att("u", "", ""), [s |-> "id", n |-> "x"]>>, <<Att("t", "", ""), Cls("a"), Cls("b")>>,
           <<Att("u", "=", "no"), Att("t", "", "")>>, <<Att("u", "", ""), Pc("hover")>>,
           <<Tag("q"), Att("u", "*=", "k"), Att("t", "~=", "t")>>, <<Star, Tag("p"), Att("class", "", "")>> >>

(* numeric properties which do not matter for each other *)
Probes == SetSeq(LPAProps) \o SetSeq(LPProps) \o SetSeq(WidthProps)
Room == Len(Probes) - 4
Chunks == (Len(Sels) + Room - 1) \div Room
ChunkOf(c) == SubSeq(Sels, (c - 1) * Room + 1, Min(c * Room, Len(Sels)))
              \o [i \in 1..4 |-> One(Many[4 * (c % 4) + i])]
(* lists of selectors: in the last chunk the rules have two *)
RulesOf(c) == LET ss == ChunkOf(c)
              IN [i \in DOMAIN ss |-> Rule(IF c = Chunks THEN <<ss[i], ss[1 + ((i * 7) % Len(ss))]>> ELSE <<ss[i]>>,
                                           <<Decl(Probes[i], <<PxT(i)>>)>>)]

Leaf == Tx(<<Lit("xx")>>)
Elem(i, tag, kids) ==
  LET s == ToString(i)
  IN El(tag, <<At_("u", "k"), Vis(TRUE, <<"v" \o s>>),
               Bd("class", IF i = 2 THEN <<Lit("z "), Sp(<<"c" \o s>>)>> ELSE <<Sp(<<"c" \o s>>)>>),
               Bd("id", <<Sp(<<"i" \o s>>)>>), Fl("t", <<"t" \o s>>)>>, kids)
Tags == << <<"p", "p", "q">>, <<"p", "q", "p">>, <<"q", "p", "p">> >>
Forest(n, t) ==
  CASE n = 1 -> <<Elem(1, t[1], <<Leaf>>), Elem(2, t[2], <<Leaf>>), Elem(3, t[3], <<Leaf>>)>>
    [] n = 2 -> <<Elem(1, t[1], <<Elem(2, t[2], <<Leaf>>)>>), Elem(3, t[3], <<Leaf>>)>>
    [] n = 3 -> <<Elem(1, t[1], <<Leaf>>), Elem(2, t[2], <<Elem(3, t[3], <<Leaf>>)>>)>>
    [] n = 4 -> <<Elem(1, t[1], <<Elem(2, t[2], <<Leaf>>), Elem(3, t[3], <<Leaf>>)>>)>>
    [] n = 5 -> <<Elem(1, t[1], <<Elem(2, t[2], <<Elem(3, t[3], <<Leaf>>)>>)>>)>>

(* label: hidden, plain, class a, classes a b, id x, attribute t             *)
Label(i, l) ==
  LET s == ToString(i)
  IN << <<"v" \o s, Bool(l # 0)>>, <<"c" \o s, Str(CASE l = 2 -> "a" [] l = 3 -> "a b" [] OTHER -> "")>>,
        <<"i" \o s, IF l = 4 THEN Str("x") ELSE Null>>, <<"t" \o s, Bool(l = 5)>> >>
ValueOf(n) == Obj(Label(1, n % 6) \o Label(2, (n \div 6) % 6) \o Label(3, (n \div 36) % 6))
(* there and back again in great steps: 216 and 125 have no common divisor *)
Order(k) == ((k - 1) * 125) % 216
Steps_ == [k \in 1..217 |-> St(ValueOf(Order(k)), 0, IF k % 4 = 0 THEN <<[e |-> "move", to |-> 1 + ((k \div 4) % 6), at |-> "c"]>> ELSE <<>>)]

VARIABLES ch, sh, tg, k, d, in, flat
vars == <<ch, sh, tg, k, d, in, flat>>
Key == <<ch, sh, tg, k>>

Init == /\ ch \in 1..Chunks /\ sh \in 1..5 /\ tg \in 1..3 /\ k = 0
        /\ (~Thorough => tg = 1 + ((ch + sh) % 3))
        /\ d = Doc(Body(Forest(sh, Tags[tg])), RulesOf(ch)) /\ in = Instantiate(d) /\ flat = <<>>
        /\ Emit_(d, Steps_)
Next == /\ k < 216 /\ k' = k + 1 /\ flat' = Display(in, Steps_[k + 1].value) /\ UNCHANGED <<ch, sh, tg, d, in>>

(* ---- what a selector means: there are elements for all of its parts ---- *)
NoState == [hov |-> {flat[i].id : i \in {j \in DOMAIN flat : j % 2 = 0}}, act |-> {}, foc |-> {}]
Related(comb, a, b) == CASE comb = ">" -> flat[b].par = a [] comb = "+" -> flat[b].prev = a /\ a # 0 [] OTHER -> FALSE
Means(sel, i) ==
  \E f \in [1..Len(sel.parts) -> 0..Len(flat)] :
    /\ f[Len(sel.parts)] = i
    /\ \A j \in DOMAIN sel.parts : MatchCompound(sel.parts[j], NodeAt(flat, f[j]), NoState)
    /\ \A j \in DOMAIN sel.combs : f[j + 1] # 0 /\ Related(sel.combs[j], f[j], f[j + 1])
Elements == {i \in DOMAIN flat : flat[i].k = "el"}
Meaning == k > 0 /\ (Thorough \/ k % 5 = ch % 5) => \A i \in Elements : \A s \in DOMAIN ChunkOf(ch) :
             LET x == ChunkOf(ch)[s] IN Len(x.parts) <= 3 => (Means(x, i) <=> Matches(<<x>>, flat, i, NoState))
=============================================================================
