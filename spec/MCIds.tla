-------------------------------- MODULE MCIds --------------------------------
(* Static, bound and repeated ids under every change from one combination of  *)
(* values to another; several elements may have the same (C23).               *)
EXTENDS MCDoc

Id_(path) == Bd("id", <<Sp(path)>>)
Names_ == <<"a", "b", "c", "", "ka", "kb", "k", "a1", "a2", "zz", "null">>
(* 1 everything in a row 2 behind a condition 3 in copies 4 in a template twice *)
Frames == 1..4
Row_ == <<
  El("p", <<At_("id", "c")>>, <<>>),
  El("p", <<Id_(<<"u">>)>>, <<El("q", <<Bd("id", <<Lit("k"), Sp(<<"u">>)>>)>>, <<>>)>>),
  El("p", <<Vis(TRUE, <<"v">>), Id_(<<"w">>)>>, <<>>),
  El("p", <<Rep("it", 2, <<"xs">>), Id_(<<"it">>)>>, <<El("q", <<Vis(FALSE, <<"v">>), Id_(<<"it", "n">>)>>, <<>>)>>) >>
DocOf(n) ==
  CASE n = 1 -> Doc(Body(Row_), <<>>)
    [] n = 2 -> Doc(Body(<<El("div", <<Vis(TRUE, <<"v">>), Id_(<<"w">>)>>, Row_), El("p", <<Id_(<<"w">>)>>, <<>>)>>), <<>>)
    [] n = 3 -> Doc(Body(<<El("div", <<Rep("u", 2, <<"xs">>)>>, Row_), El("p", <<Id_(<<"u">>)>>, <<>>)>>), <<>>)
    [] n = 4 -> [Doc(Body(<<El("link", <<At_("href", "#t"), Ali("u", <<"w">>)>>, <<>>), El("link", <<At_("href", "#t"), Ali("w", <<"u">>)>>, <<>>)>>), <<>>)
                 EXCEPT !.tpls = << [id |-> "#t", root |-> El("div", <<>>, Row_)] >>]

Us == <<Null, Str("a"), Str("b")>>
Lists == <<Arr(<<>>), Arr(<<Str("a")>>), Arr(<<Str("b"), Str("a")>>), Arr(<<Obj(<< <<"n", Str("b")>> >>), Str("c")>>), Arr(<<Num(1), Obj(<< <<"n", Str("a")>> >>)>>)>>
Symbols == Len(Us) * Len(Us) * Len(Lists)      \* the condition goes with the rest
(* digits: u, w and the list *)
ValueOf(y, n) ==
  LET u == Us[1 + (y % 3)] w == Us[1 + ((y \div 3) % 3)]
      xs == Lists[1 + (y \div 9)]
  IN Obj((IF u = Null THEN <<>> ELSE << <<"u", u>> >>) \o << <<"v", Bool((y + n) % 2 = 0)>>, <<"w", w>>, <<"xs", xs>> >>)
Word == <<>> \o Tour(Symbols)
Per == 106 \* steps of a behaviour
Pieces == (Len(Word) + Per - 2) \div (Per - 1)        \* overlapping by one
From_(p) == (p - 1) * (Per - 1)
Piece(p) == SubSeq(Word, From_(p) + 1, Min(Len(Word), From_(p) + Per))
Values_(p) == [n \in DOMAIN Piece(p) |-> ValueOf(Piece(p)[n] - 1, (From_(p) + n) \div 2)]

VARIABLES n_, p_, k, vals, doc, inst, byid, flat, found
vars == <<n_, p_, k, vals, doc, inst, byid, flat, found>>
Key == <<n_, p_, k>>
Init == /\ n_ \in Frames /\ p_ \in 1..Pieces /\ k = 0 /\ vals = Values_(p_)
        /\ doc = DocOf(n_) /\ inst = Instantiate(doc) /\ byid = ById(inst) /\ flat = <<>> /\ found = <<>>
        /\ PrintT("##" \o ToJson([doc |-> doc, steps |-> [i \in DOMAIN vals |-> St(vals[i], 0, <<>>)], opts |-> [ids |-> Names_, want |-> ""]]))
Next == /\ k < Len(vals) /\ k' = k + 1
        /\ flat' = Display(inst, vals[k + 1])
        /\ found' = [j \in DOMAIN Names_ |-> Lookup([flat |-> flat'], byid, vals[k + 1], Names_[j])]
        /\ UNCHANGED <<n_, p_, vals, doc, inst, byid>>

(* ---- what is found ---- *)
Get(o, key) == Step(o, key)
U == EvalString(Get(vals[k], "u"))
W == EvalString(Get(vals[k], "w"))
V == Get(vals[k], "v").b
Xs == LET l == Get(vals[k], "xs").a IN [i \in 1..Min(2, Len(l)) |-> l[i]]
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
OfRow(u, w) == <<"c", u, "k" \o u>> \o (IF V THEN <<w>> ELSE <<>>)
               \o Flatten([i \in DOMAIN Xs |-> <<EvalString(Xs[i])>> \o (IF V THEN <<>> ELSE <<EvalString(Get(Xs[i], "n"))>>)])
All_ == CASE n_ = 1 -> OfRow(U, W)
          [] n_ = 2 -> (IF V THEN <<W>> \o OfRow(U, W) ELSE <<>>) \o <<W>>
          [] n_ = 3 -> Flatten([i \in DOMAIN Xs |-> OfRow(EvalString(Xs[i]), W)]) \o <<U>>
          [] n_ = 4 -> OfRow(W, W) \o OfRow(U, U)
Finds == k > 0 =>
  LET bag == Bag(All_)
  IN \A j \in DOMAIN Names_ :
       /\ Cardinality(found[j].shown) = (IF Names_[j] \in DOMAIN bag THEN bag[Names_[j]] ELSE 0)
       /\ \A i \in found[j].shown : flat[i].k = "el" /\ flat[i].at["id"] = Names_[j]
       /\ found[j].shown # {} => found[j].has # {}
=============================================================================
