------------------------------- MODULE MCTree -------------------------------
(* Every row of three siblings which are static, conditional, repeated or    *)
(* text, alone and inside of conditional and repeated elements, while        *)
(* conditions and arrays change in every order (C02, C03, C06, C25).         *)
EXTENDS MCDoc

(* kinds of siblings: 1 static 2 shown when v 3 hidden when v 4 two copies   *)
(* of xs 5 three copies of ys 6 text 7 copies with conditions inside         *)
Sib(n, pos, t) ==
  LET e(bs, kids) == El(<<"p", "q", "p">>[pos], bs, kids)
  IN CASE n = 1 -> e(<<>>, <<>>)
       [] n = 2 -> e(<<Vis(TRUE, <<"v">>)>>, <<Tx(<<Lit("y")>>)>>)
       [] n = 3 -> e(<<Vis(FALSE, <<"v">>)>>, <<Tx(<<Lit("n")>>)>>)
       [] n = 4 -> e(<<Rep("it", 2, <<"xs">>)>>, <<Tx(<<Sp(<<"it", "n">>)>>)>>)
       [] n = 5 -> e(<<Rep("it", 3, IF t THEN <<"x", "ys">> ELSE <<"ys">>)>>, <<Tx(<<Sp(<<"it">>)>>)>>)
       [] n = 6 -> Tx(<<Lit("t"), Sp(<<"v">>)>>)
       [] n = 7 -> e(<<Rep("it", 2, <<"xs">>)>>, <<El("b", <<Vis(TRUE, <<"it", "on">>)>>, <<>>), El("i", <<Vis(FALSE, <<"it", "on">>)>>, <<>>)>>)

(* texts which are neighbours in the document are one text for HTML          *)
Row_(n) == LET r == <<1 + (n % 7), 1 + ((n \div 7) % 7), 1 + ((n \div 49) % 7)>>
           IN IF r[2] = 6 /\ (r[1] = 6 \/ r[3] = 6) THEN [r EXCEPT ![2] = 1] ELSE r
Rows == 343
(* around the row: nothing, a condition, a repeat whose item has its own ys  *)
Wrap(w, kids) ==
  CASE w = 0 -> El("div", <<>>, kids)
    [] w = 1 -> El("div", <<>>, <<El("div", <<Vis(TRUE, <<"w">>)>>, kids)>>)
    [] w = 2 -> El("div", <<>>, <<El("div", <<Rep("x", 2, <<"xs">>)>>, kids)>>)
Per == 16
Chunk(c) == [i \in 1..Per |-> Row_((c - 1) + (i - 1) * 22)]     \* 22 chunks of 16 rows: 352, the last ones are again the first
DocOf(c, w) == Doc(Body([i \in 1..Per |-> Wrap(w, [j \in 1..3 |-> Sib(Chunk(c)[i][j], j, w = 2)])]), <<>>)

It(n, on, ys) == Obj(<< <<"n", Num(n)>>, <<"on", Bool(on)>>, <<"ys", Arr([i \in 1..ys |-> Num(10 * n + i)])>> >>)
Xs == <<Null, Arr(<<>>), Arr(<<It(1, TRUE, 1)>>), Arr(<<It(2, FALSE, 2), It(1, TRUE, 0)>>), Arr(<<It(3, TRUE, 4), It(4, TRUE, 1), It(5, FALSE, 0)>>)>>
(* symbols: v, xs, ys and w go their own ways *)
Symbols == 10
ValueOf(y, n) == Obj(<< <<"v", Bool(y % 2 = 0)>>, <<"w", Bool((y + n) % 3 # 0)>>, <<"xs", Xs[1 + (y \div 2)]>>,
                        <<"ys", IF (y * 3 + n) % 4 = 0 THEN Str("no") ELSE Arr([i \in 1..((y + n) % 5) |-> Num((y + i) % 7)])>> >>)
Word == <<>> \o Tour(Symbols)
Values_ == [n \in DOMAIN Word |-> ValueOf(Word[n] - 1, n)]

VARIABLES c, w, k, doc, inst, flat
vars == <<c, w, k, doc, inst, flat>>
Key == <<c, w, k>>
Init == /\ c \in 1..22 /\ w \in 0..2 /\ (~Thorough => w = c % 3) /\ k = 0
        /\ doc = DocOf(c, w) /\ inst = Instantiate(doc) /\ flat = <<>>
        /\ Emit_(doc, [n \in DOMAIN Word |-> St(Values_[n], 0, <<>>)])
Next == k < Len(Word) /\ k' = k + 1 /\ flat' = Display(inst, Values_[k + 1]) /\ UNCHANGED <<c, w, doc, inst>>

(* ---- what stands in a row ---- *)
Get(o, key) == Step(o, key)
ArrOf(v, most) == IF v.t # "a" THEN <<>> ELSE SubSeq(v.a, 1, Min(most, Len(v.a)))
OneOf(n, pos, val, ys) ==      \* the sequence of <<tag, text, tags of children>> for a sibling
  LET tag == <<"p", "q", "p">>[pos]
      v == Get(val, "v").b
      xs == ArrOf(Get(val, "xs"), 2)
      y3 == ArrOf(ys, 3)
  IN CASE n = 1 -> << <<tag, "", <<>> >> >>
       [] n = 2 -> IF v THEN << <<tag, "y", <<>> >> >> ELSE <<>>
       [] n = 3 -> IF v THEN <<>> ELSE << <<tag, "n", <<>> >> >>
       [] n = 4 -> [i \in DOMAIN xs |-> <<tag, ToString(Get(xs[i], "n").n), <<>> >>]
       [] n = 5 -> [i \in DOMAIN y3 |-> <<tag, ToString(y3[i].n), <<>> >>]
       [] n = 6 -> << <<"", IF v THEN "ttrue" ELSE "tfalse", <<>> >> >>
       [] n = 7 -> [i \in DOMAIN xs |-> <<tag, "", IF Get(xs[i], "on").b THEN <<"b">> ELSE <<"i">> >>]
RowOf(r, val, ys) == OneOf(r[1], 1, val, ys) \o OneOf(r[2], 2, val, ys) \o OneOf(r[3], 3, val, ys)
KidsAt(n) == SelectSeq([m \in DOMAIN flat |-> m], LAMBDA m : flat[m].par = n)
TxOf(n) == Join([m \in DOMAIN flat |-> IF flat[m].par = n /\ flat[m].k = "tx" THEN flat[m].tx ELSE ""])
Seen(n) == IF flat[n].k = "tx" THEN <<"", flat[n].tx, <<>> >>
           ELSE LET es == SelectSeq(KidsAt(n), LAMBDA m : flat[m].k = "el")
                IN <<flat[n].tag, TxOf(n), [i \in DOMAIN es |-> flat[es[i]].tag]>>
SeenRow(n) == LET ks == KidsAt(n) IN [i \in DOMAIN ks |-> Seen(ks[i])]
Stands == k > 0 /\ (Thorough \/ k % 4 = c % 4) =>
  LET val == Values_[k]
      tops == KidsAt(1)
      xs == ArrOf(Get(val, "xs"), 2)
  IN /\ Len(tops) = Per
     /\ \A i \in DOMAIN tops :
          LET r == Chunk(c)[i] IN
          CASE w = 0 -> SeenRow(tops[i]) = RowOf(r, val, Get(val, "ys"))
            [] w = 1 -> LET ks == KidsAt(tops[i])
                        IN IF Get(val, "w").b THEN Len(ks) = 1 /\ SeenRow(ks[1]) = RowOf(r, val, Get(val, "ys")) ELSE ks = <<>>
            [] w = 2 -> LET ks == KidsAt(tops[i])
                        IN Len(ks) = Len(xs) /\ \A j \in DOMAIN ks : SeenRow(ks[j]) = RowOf(r, val, Get(xs[j], "ys"))
=============================================================================
