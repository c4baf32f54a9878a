------------------------------- MODULE MCScope -------------------------------
(* Every chain of three elements which introduce names: aliases, copies of    *)
(* repeats, links to templates, conditions over fresh names (C04, C03, C11).  *)
(* The specification resolves names to paths; here they stand for values.     *)
EXTENDS MCDoc

a == <<"a">>
b == <<"b">>
(* what an element (and the template it links to) introduces, in the order of effect *)
Forms == <<
  <<>>,
  <<Ali("a", b)>>,
  <<Ali("a", <<"a", "x">>)>>,
  <<Ali("a", b), Ali("b", a)>>,
  <<Ali("b", <<"a", "x">>), Ali("a", <<"b", "x">>)>>,
  <<Rep("a", 2, <<"b", "l">>)>>,
  <<Rep("b", 2, <<"b", "l">>)>>,
  <<Ali("b", <<"a", "x">>), Rep("a", 2, <<"b", "l">>)>>,
  <<Ali("a", <<"b", "x">>), Vis(TRUE, <<"a", "f">>)>>,
  <<Ali("b", a), Ali("a", <<"b", "x">>)>> >>         \* the first by the link, the second by the template
Linked == Len(Forms)
N == Len(Forms)

Show == Tx(<<Sp(<<"a", "s">>), Lit("/"), Sp(<<"b", "s">>), Lit("/"), Sp(<<"a", "a">>), Sp(<<"c">>)>>)
Arg(path) == [t |-> "e", e |-> Ex(path, <<>>)]
Hears == El("p", <<At_("class", "l"), On("onmousedown", <<Arg(<<"a", "s">>), Arg(<<"b", "x", "s">>), Arg(<<"a", "l", "0", "f">>)>>),
                   Bd("t", <<Sp(<<"b", "s">>)>>), Fl("f", <<"a", "f">>)>>, <<>>)
Kids_(inner) == <<Show, Hears>> \o inner \o <<El("q", <<>>, <<Show>>)>>
Elem(form, level, inner) ==
  IF form = Linked THEN El("link", <<At_("href", "#t" \o level), Forms[form][1]>>, <<>>)
  ELSE El("div", Forms[form], Kids_(inner))
Tpl(form, level, inner) == IF form # Linked THEN <<>> ELSE << [id |-> "#t" \o level, root |-> El("div", <<Forms[form][2]>>, Kids_(inner))] >>
Third == [i \in 1..N |-> Elem(i, "3", <<>>)]
DocOf(f1, f2) ==
  LET second == <<Elem(f2, "2", Third)>>
      first == <<Elem(f1, "1", second), Hears>>
  IN [Doc(Body(first), <<Rule(<<One(<<Cls("l")>>)>>, <<Decl("position", <<Kw("absolute")>>), Decl("left", <<PxT(0)>>), Decl("top", <<PxT(0)>>),
                              Decl("width", <<PxT(50)>>), Decl("height", <<PxT(50)>>)>>)>>)
      EXCEPT !.tpls = Tpl(f1, "1", second) \o Tpl(f2, "2", Third) \o Tpl(Linked, "3", <<>>)]

(* values: every place is named by the way to it *)
RECURSIVE V(_, _, _)
V(name, deep, how) ==
  LET deeper == deep > 0
  IN Obj(<< <<"a", Str("!" \o name)>>, <<"f", Bool((deep + how) % 2 = 0)>> >>
         \o (IF deeper THEN << <<"l", Arr([i \in 1..(IF how % 3 = 2 THEN 1 ELSE 2) |-> V(name \o ToString(i), deep - 1, how)])>> >> ELSE <<>>)
         \o << <<"s", Str(name)>> >>
         \o (IF deeper THEN << <<"x", V(name \o "x", deep - 1, how + 1)>> >> ELSE <<>>))
Root_(n) == Obj(<< <<"a", V(IF n = 2 THEN "A" ELSE "a", 4, n)>>, <<"b", V(IF n = 3 THEN "B" ELSE "b", 4, n + 1)>>, <<"c", Str(IF n = 2 THEN "C" ELSE "")>> >>)
Vals == <<Root_(1), Root_(2), Root_(3), Obj(<< <<"b", V("o", 5, 1)>> >>), Root_(1)>>
Pressed_ == <<[e |-> "move", x |-> 10000, y |-> 10000], [e |-> "down", b |-> "Left"]>>

VARIABLES f1, f2, k, doc, inst, flat
vars == <<f1, f2, k, doc, inst, flat>>
Key == <<f1, f2, k>>
Init == /\ f1 \in 1..N /\ f2 \in 1..N /\ k = 0
        /\ doc = DocOf(f1, f2) /\ inst = Instantiate(doc) /\ flat = <<>>
        /\ Emit_(doc, [n \in DOMAIN Vals |-> St(Vals[n], 0, IF n \in {1, 3, 5} THEN Pressed_ ELSE <<>>)])
Next == k < Len(Vals) /\ k' = k + 1 /\ flat' = Display(inst, Vals[k + 1]) /\ UNCHANGED <<f1, f2, doc, inst>>

(* ---- names stand for values ---- *)
Look(env, path) == At(IF path[1] \in DOMAIN env THEN env[path[1]] ELSE Null, Tail(path))
Text(env) == Join([i \in 1..6 |-> CASE i = 1 -> EvalString(Look(env, <<"a", "s">>)) [] i = 3 -> EvalString(Look(env, <<"b", "s">>))
                                    [] i = 5 -> EvalString(Look(env, <<"a", "a">>)) [] i = 6 -> EvalString(Look(env, <<"c">>)) [] OTHER -> "/"])
(* the environments of the copies of an element; none if it is not shown     *)
RECURSIVE Envs(_, _)
Envs(bs, env) ==
  IF bs = <<>> THEN <<env>>
  ELSE LET x == Head(bs) IN
    CASE x.b = "alias" -> Envs(Tail(bs), (x.k :> Look(env, x.e.path)) @@ env)
      [] x.b = "vis" -> IF EvalBoolean(Look(env, x.e.path)) THEN <<env>> ELSE <<>>
      [] x.b = "repeat" -> LET list == Look(env, x.e.path)
                               n == IF list.t # "a" THEN 0 ELSE Min(2, Len(list.a))
                           IN [i \in 1..n |-> (x.k :> list.a[i]) @@ env]
(* all texts in the order of the document *)
RECURSIVE TextsOf(_, _)
TextsOf(forms, env) ==      \* forms: what the levels are made of
  LET copies == Envs(Forms[Head(forms)], env)
      inside(e) == IF Len(forms) = 1 THEN <<>>
                   ELSE IF Len(forms) = 2 THEN Flatten([i \in 1..N |-> TextsOf(<<i>>, e)])
                   ELSE TextsOf(Tail(forms), e)
  IN Flatten([i \in DOMAIN copies |-> <<Text(copies[i])>> \o inside(copies[i]) \o <<Text(copies[i])>>])
Env0(val) == [name \in {val.o[i][1] : i \in DOMAIN val.o} |-> Step(val, name)]
Seen == LET ts == SelectSeq(flat, LAMBDA n : n.k = "tx") IN [i \in DOMAIN ts |-> ts[i].tx]
Lexical == k > 0 => Seen = TextsOf(<<f1, f2, 0>>, Env0(Vals[k]))
=============================================================================
