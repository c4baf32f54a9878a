-------------------------------- MODULE MCMsgs --------------------------------
(* Listeners with all lists of up to three arguments, emitted while the paths *)
(* go through values of all kinds (C11, C05). What a message is is restated  *)
(* as a table of what every argument is.                                     *)
EXTENDS MCDoc

Arg(path, pipe) == [t |-> "e", e |-> Ex(path, pipe)]
Args == << Key_("A"), Key_("long-word_1"), Arg(<<"t">>, <<>>), Arg(<<"t", "0">>, <<>>), Arg(<<"u">>, <<"not">>), Arg(<<"u">>, <<>>),
           Arg(<<"t">>, <<"tail", "wrap">>), Arg(<<"it">>, <<>>), Arg(<<"it", "x">>, <<>>), [t |-> "ev"] >>
NA == Len(Args)
(* a document has the lists which begin with two given arguments (0: none)   *)
Lists(p, q) == IF p = 0 THEN <<<<>>>> ELSE IF q = 0 THEN <<<<p>>>> ELSE <<<<p, q>>>> \o [i \in 1..NA |-> <<p, q, i>>]
Events_ == <<"onmousedown", "onmouseup", "onmousemove">>
Elem(list, n) ==
  El("p", <<At_("class", "l")>> \o [e \in DOMAIN Events_ |-> On(Events_[e], [i \in DOMAIN list |-> Args[list[i]]])], <<>>)
DocOf(p, q) == Doc(Body(<<El("div", <<Rep("it", 2, <<"xs">>)>>, [i \in DOMAIN Lists(p, q) |-> Elem(Lists(p, q)[i], i)])>>),
                <<Rule(<<One(<<Cls("l")>>)>>, <<Decl("position", <<Kw("absolute")>>), Decl("left", <<PxT(3)>>), Decl("top", <<PxT(4)>>),
                              Decl("width", <<PxT(50)>>), Decl("height", <<PxT(40)>>)>>)>>)

Half == [t |-> "d", s |-> "1.5", m |-> 1500]
Kinds == <<Null, Bool(TRUE), Num(0), Half, Str(""), Str("x y"), Arr(<<>>), Arr(<<Arr(<<Str("y"), Null, Num(0 - 1)>>), Half>>), Obj(<< <<"0", Null>>, <<"x", Obj(<<>>)>> >>)>>
Items_ == <<Obj(<< <<"x", Num(7)>> >>), Str("s"), Null, Obj(<< <<"x", Arr(<<Half>>)>>, <<"y", Bool(FALSE)>> >>)>>
N == Len(Kinds)
ValOf(i) == Obj((IF i = 1 THEN <<>> ELSE << <<"t", Kinds[i]>> >>) \o << <<"u", Kinds[1 + ((i * 2) % N)]>>,
                   <<"xs", Arr([j \in 1..(i % 4) |-> Items_[1 + ((i + j) % 4)]])>> >>)
Word == [i \in 1..(2 * N) |-> IF i <= N THEN i ELSE 1 + ((i * 4) % N)]
Mv == [e |-> "move", x |-> 10000, y |-> 10000]
EvOf(n) == CASE n % 3 = 1 -> <<Mv, [e |-> "down", b |-> "Right"]>> [] n % 3 = 2 -> <<[e |-> "up", b |-> "Middle"]>> [] OTHER -> <<Mv, Mv>>

VARIABLES p, q, k, doc, inst
vars == <<p, q, k, doc, inst>>
Key == <<p, q, k>>
Init == /\ p \in 0..NA /\ q \in 0..NA /\ (p = 0 => q = 0) /\ k = 0
        /\ doc = DocOf(p, q) /\ inst = Instantiate(doc)
        /\ Emit_(doc, [n \in DOMAIN Word |-> St(ValOf(Word[n]), 0, EvOf(n))])
Next == k < Len(Word) /\ k' = k + 1 /\ UNCHANGED <<p, q, doc, inst>>

(* ---- what an argument is, in the copy c for the kinds t and u ---- *)
U(i) == Kinds[1 + ((i * 2) % N)]
It(i, c) == IF c > i % 4 THEN Null ELSE Items_[1 + ((i + c) % 4)]
Truth == <<FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, FALSE, TRUE, TRUE>>
TextK == <<"", "true", "0", "1.5", "", "x y", "[array]", "[array]", "{object}">>
Is(a, i, c) ==
  CASE a = 1 -> Str("A") [] a = 2 -> Str("long-word_1")
    [] a = 3 -> Kinds[i]
    [] a = 4 -> (IF i = 8 THEN Arr(<<Str("y"), Null, Num(0 - 1)>>) ELSE Null)
    [] a = 5 -> Bool(~Truth[1 + ((i * 2) % N)])
    [] a = 6 -> U(i)
    [] a = 7 -> Str("[" \o TextK[i] \o "]")
    [] a = 8 -> It(i, c)
    [] a = 9 -> (LET m == 1 + ((i + c) % 4) IN IF c > i % 4 THEN Null ELSE IF m = 1 THEN Num(7) ELSE IF m = 4 THEN Arr(<<Half>>) ELSE Null)
    [] a = 10 -> Obj(<< <<"position", Arr(<<Milli(10000), Milli(10000)>>)>>,
                        <<"target", Obj(<< <<"position", Arr(<<Milli(3000), Milli(4000)>>)>>, <<"size", Arr(<<Milli(50000), Milli(40000)>>)>>,
                           <<"state", Obj(<< <<"active", Bool(FALSE)>>, <<"checked", Bool(FALSE)>>, <<"focus", Bool(FALSE)>>, <<"hover", Bool(TRUE)>> >>)>> >>)>> >>)
(* objects cannot be keys other than by their text                            *)
KeyText(a, i, c) == LET v == Is(a, i, c) IN CASE v.t = "s" -> v.s [] v.t = "null" -> "" [] v.t = "b" -> (IF v.b THEN "true" ELSE "false")
                        [] v.t = "n" -> ToString(v.n) [] v.t = "d" -> "1.5" [] v.t = "a" -> "[array]" [] v.t = "o" -> "{object}"
Wanted(list, i, c) ==
  CASE Len(list) = 0 -> Str("Undefined")
    [] Len(list) = 1 -> Str(KeyText(list[1], i, c))
    [] Len(list) = 2 -> Obj(<< <<KeyText(list[1], i, c), Norm(Is(list[2], i, c))>> >>)
    [] Len(list) = 3 -> Obj(<< <<KeyText(list[1], i, c), Arr(<<Norm(Is(list[2], i, c)), Norm(Is(list[3], i, c))>>)>> >>)
St0(id) == [NoInput EXCEPT !.mouse = <<10000, 10000>>, !.under = <<id>>]
Carries == k > 0 => \A c \in {1, 2} : \A n \in DOMAIN Lists(p, q) :
  LET list == Lists(p, q)[n]
      id == <<1, c, n, 0>>
      byid == ById(inst)
      cx == [inst |-> byid, val |-> ValOf(Word[k]), geo |-> (id :> <<3000, 4000, 50000, 40000>>)]
  IN \A e \in DOMAIN Events_ :
       LET r == EmitMouse([st |-> St0(id), msgs |-> <<>>, occ |-> <<>>], cx, id, Events_[e])
       IN r.msgs = <<Wanted(list, Word[k], c)>>
Silent == k = 1 => \A c \in {1, 2} : LET id == <<1, c, 1, 0>> IN
  EmitMouse([st |-> St0(id), msgs |-> <<>>, occ |-> <<>>], [inst |-> ById(inst), val |-> ValOf(1), geo |-> <<>>], id, "onclick").msgs = <<>>
=============================================================================
