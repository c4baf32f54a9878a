------------------------------- MODULE MCValues -------------------------------
(* Every longhand with every kind of value, appearing and disappearing, in   *)
(* two viewports (C14, C19).                                                 *)
EXTENDS MCDoc

Longs == LPAProps \cup LPProps \cup WidthProps \cup ColorProps \cup DOMAIN Keywords \cup BgProps
         \cup {"opacity", "font-size", "font-weight", "font-family", "flex-grow", "flex-shrink"}

ErrT(x) == [t |-> "err", _x |-> x]
Words_ == UNION {DOMAIN Keywords[p] : p \in DOMAIN Keywords}
Dim(u, n) == [t |-> u, n |-> n]
Common == <<
  PxT(7), Dim("px", 2500), Dim("px", -3000), Dim("em", 1500), Dim("em", -500), Dim("rem", 2000), Dim("vw", 10000),
  Dim("vh", 50000), Dim("vmin", 12500), Dim("vmax", 1000), Dim("vw", -10000),
  [t |-> "pct", n |-> 500], [t |-> "pct", n |-> 1250], [t |-> "pct", n |-> -200],
  Zero, NumT(2000), NumT(250), NumT(300000),
  [t |-> "col", c |-> <<1, 128, 255, 255>>], [t |-> "col", c |-> <<17, 0, 34, 127>>, _f |-> "rgba"], [t |-> "col", c |-> <<9, 8, 7, 255>>, _f |-> "rgb"],
  Kw("red"), Kw("transparent"), Kw("currentcolor"),
  [t |-> "str", s |-> "text"], [t |-> "url", s |-> "a/b.png"], TimeT(4), Kw("bogus"), Kw("inherit"),
  ErrT("5pt"), ErrT("#12"), ErrT("1-2px"), VarT("--no") >>
Tokens(p) == Common \o SetSeq({Kw(s) : s \in IF p \in DOMAIN Keywords THEN DOMAIN Keywords[p] ELSE {"auto", "none", "normal", "bold", "start"}})
             \o (IF Thorough THEN SetSeq({Kw(s) : s \in Words_ \ (IF p \in DOMAIN Keywords THEN DOMAIN Keywords[p] ELSE {})}) ELSE <<>>)

DocOf(p) ==
  LET ts == Tokens(p)
      kid(i) == El("i", <<Bd("class", <<Sp(<<"c">>), Lit(ToString(i))>>)>>, <<>>)
  IN Doc(Body(<<El("div", <<At_("class", "h")>>, [i \in DOMAIN ts |-> kid(i)])>>),
         <<Rule(<<One(<<Cls("h")>>)>>, <<Decl("font-size", <<PxT(20)>>), Decl("color", <<ColT(10, 20, 30)>>)>>)>>
         \o [i \in DOMAIN ts |-> Rule(<<One(<<Cls("x" \o ToString(i))>>)>>, <<Decl(p, <<ts[i]>>)>>)])

Val(c) == Obj(<< <<"c", Str(c)>> >>)
Steps_ == << St(Val("x"), 0, <<>>), St(Val(""), 0, <<>>), [St(Val("x"), 0, <<>>) EXCEPT !.vp = <<333, 777>>],
             [St(Val("y"), 0, <<>>) EXCEPT !.vp = <<333, 777>>] >>

VARIABLES p, k, cur, d, in
vars == <<p, k, cur, d, in>>

Init == /\ p \in Longs /\ k = 0
        /\ d = DocOf(p) /\ in = Instantiate(d) /\ cur = <<>>
        /\ Emit_(d, Steps_)
Next == /\ k < Len(Steps_) /\ k' = k + 1
        /\ cur' = Styles(d, Display(in, Steps_[k + 1].value), [hov |-> {}, act |-> {}, foc |-> {}], <<>>, Steps_[k + 1])
        /\ UNCHANGED <<p, d, in>>

Cx == [vp |-> Steps_[k].vp, pfs |-> 20000, pcolor |-> <<10, 20, 30, 255>>]
Base(q) == CASE q = "font-size" -> 20000 [] q = "color" -> <<10, 20, 30, 255>> [] OTHER -> Defaults[q]
Seen(i, q) == Sty(cur[2 + i].style, q)
(* only the declared property has another value, and nothing of it remains   *)
OnlyDeclared ==
  k > 0 => \A i \in DOMAIN Tokens(p) :
    LET f == Full(cur[2 + i].style)
    IN \A q \in DOMAIN Defaults : q # p /\ ~(p \in BgProps /\ q = "backgrounds") => f[q] = Base(q)
Nothing == k \in {2, 4} => \A i \in DOMAIN Tokens(p) :
    LET f == Full(cur[2 + i].style) IN \A q \in DOMAIN Defaults : f[q] = Base(q)
(* a value which is not one of the property leaves it undeclared             *)
Invalid == k > 0 => \A i \in DOMAIN Tokens(p) :
  Tokens(p)[i].t \in {"err", "var", "time"} \/ (Tokens(p)[i].t = "kw" /\ Tokens(p)[i].s = "bogus")
    => p \in BgProps \/ Seen(i, p) = Base(p)
(* lengths are the declared quantity in every unit                           *)
Lengths == k = 1 /\ p \in LPAProps \cup LPProps =>
  /\ Seen(1, p) = <<"len", 7000>> /\ Seen(3, p) = <<"len", -3000>> /\ Seen(4, p) = <<"len", 30000>>
  /\ Seen(5, p) = <<"len", -10000>> /\ Seen(6, p) = <<"len", 32000>> /\ Seen(7, p) = <<"len", 80000>>
  /\ Seen(8, p) = <<"len", 300000>> /\ Seen(9, p) = <<"len", 75000>> /\ Seen(10, p) = <<"len", 8000>>
  /\ Seen(12, p) = <<"pct", 500>> /\ Seen(15, p) = <<"len", 0>>
Resized == k = 3 /\ p \in LPAProps \cup LPProps =>
  /\ Seen(1, p) = <<"len", 7000>> /\ Seen(7, p) = <<"len", 33300>> /\ Seen(8, p) = <<"len", 388500>>
  /\ Seen(9, p) = <<"len", 41625>> /\ Seen(10, p) = <<"len", 7770>>
=============================================================================
