------------------------------ MODULE MCLayout ------------------------------
(* Every combination of forms of boxes for an element, two elements inside   *)
(* of it and the body around it, laid out again after each change (C22).     *)
EXTENDS MCDoc

Pxs(p, n) == Decl(p, <<PxT(n)>>)
Pct(p, n) == Decl(p, <<[t |-> "pct", n |-> n * 10]>>)
KwD(p, s) == Decl(p, <<Kw(s)>>)
Abs == KwD("position", "absolute")

Forms == <<
  <<>>,
  <<Pxs("width", 60)>>,
  <<Pct("width", 50)>>,
  <<Pxs("height", 30)>>,
  <<Decl("padding", <<PxT(3), PxT(5)>>), Decl("border-width", <<PxT(2), PxT(0), PxT(1), PxT(4)>>)>>,
  <<Pxs("width", 60), Pxs("height", 30), Pxs("padding", 4), KwD("box-sizing", "content-box")>>,
  <<Abs, Pxs("left", 5), Pxs("top", 7), Pxs("width", 30), Pxs("height", 10)>>,
  <<Abs, Pxs("right", 3), Pxs("bottom", 4)>>,
  <<Pxs("width", 40), KwD("margin-left", "auto")>>,
  <<Pxs("min-width", 90), Pxs("max-height", 20)>>,
  <<Pxs("max-width", 30), Pxs("min-height", 12), KwD("overflow", "hidden")>>,
  <<Pxs("left", 10), Pxs("top", -5), Decl("opacity", <<NumT(500)>>)>>,
  <<Pct("height", 50), KwD("margin-left", "auto"), KwD("margin-right", "auto"), Pxs("width", 20)>>,
  <<Pxs("height", 10), KwD("overflow", "scroll"), Decl("opacity", <<NumT(250)>>)>>,
  <<Abs, Pxs("left", 2), Pxs("right", 2), Pct("top", 10), Pct("height", 25)>>,
  <<Pxs("margin-left", 7), KwD("margin-right", "auto"), Pxs("padding", 30)>> >>
Bodies == << <<>>, <<Pxs("width", 150), Pxs("height", 80)>>, <<Pxs("padding", 6), Pxs("min-height", 100)>> >>
N == Len(Forms)

Num_(n) == IF n < 10 THEN "f0" \o ToString(n) ELSE "f" \o ToString(n)
Form(kids, key) == El("div", <<Bd("class", <<Sp(<<key>>)>>)>>, kids)
DocOf(bd) ==
  Doc(Body(<<Form(<<Form(<<Tx(<<Lit("abcdef")>>)>>, "b"), Tx(<<Sp(<<"t">>)>>),
                    Form(<<El("p", <<At_("class", "e")>>, <<>>)>>, "c")>>, "a"),
             El("p", <<At_("class", "e")>>, <<>>)>>),
      [i \in 1..N |-> Rule(<<One(<<Cls(Num_(i))>>)>>, Forms[i])]
      \o <<Rule(<<One(<<Tag("body")>>)>>, Bodies[bd]),
           Rule(<<One(<<Cls("e")>>)>>, <<Pxs("width", 20), Pxs("height", 6), Decl("opacity", <<NumT(800)>>)>>)>>)

ValueOf(a, n) == LET b == 1 + ((n - 1) \div N)
                     c == IF b % 2 = 0 THEN N - ((n - 1) % N) ELSE 1 + ((n - 1) % N)
                 IN Obj(<< <<"a", Str(Num_(a))>>, <<"b", Str(Num_(b))>>, <<"c", Str(Num_(c))>>,
                           <<"t", Str(IF n % 3 = 0 THEN "xy" ELSE "")>> >>)
Changes == N * N

VARIABLES a, bd, k, doc, inst, lay
vars == <<a, bd, k, doc, inst, lay>>
Key == <<a, bd, k>>
Init == /\ a \in 1..N /\ bd \in DOMAIN Bodies /\ (~Thorough => bd = 1 + (a % 3)) /\ k = 0
        /\ doc = DocOf(bd) /\ inst = Instantiate(doc) /\ lay = <<>>
        /\ Emit_(doc, [n \in 1..Changes |-> St(ValueOf(a, n), 0, <<>>)])
Lay(f) == LET ss == StylesOf(f)
              bs == Boxes(f.flat, ss)
              raw == BoxesOf(f.flat, ss, <<>>)
          IN [flat |-> [i \in DOMAIN f.flat |-> [par |-> f.flat[i].par, k |-> f.flat[i].k]],
              ss |-> ss, bs |-> bs, simple |-> Simple(f.flat, ss),
              hollow |-> [i \in DOMAIN f.flat |-> i > 1 /\ Hollow(f.flat, ss, i, raw[f.flat[i].par].ph)],
              comp |-> Compose(f.flat, ss, [i \in DOMAIN bs |->
                 LET p == f.flat[i].par e == Extent(f.flat, ss, raw, i)
                 IN <<bs[i].x - (IF p = 0 THEN 0 ELSE bs[p].x), bs[i].y - (IF p = 0 THEN 0 ELSE bs[p].y), bs[i].w, bs[i].h, e[1], e[2]>>], <<>>)]
Next == /\ k < Changes /\ k' = k + 1
        /\ \E f \in {Frame1(doc, inst, NewView, St(ValueOf(a, k + 1), 0, <<>>))} : lay' = Lay(f)
        /\ UNCHANGED <<a, bd, doc, inst>>

(* ---- what everybody expects of boxes ---- *)
Look == k > 0 /\ (Thorough \/ k % 4 = a % 4)
Nodes == DOMAIN lay.flat
S(i) == lay.ss[i]
B(i) == lay.bs[i]
Par(i) == lay.flat[i].par
Flows(i) == i > 1 /\ (lay.flat[i].k = "tx" \/ S(i)["position"] = "Relative")
Almost(x, y) == x - y <= 1000 /\ y - x <= 1000
Lv(i, p) == S(i)[p][2]
Free(i, p) == S(i)[p] = AutoLen
Unbound(i, q) == Free(i, "min-" \o q) /\ Free(i, "max-" \o q)
Inner(i) == [l |-> B(i).x + Lv(i, "border-left-width") + Lv(i, "padding-left"),
             t |-> B(i).y + Lv(i, "border-top-width") + Lv(i, "padding-top"),
             w |-> B(i).w - HFrame(S(i)), h |-> B(i).h - VFrame(S(i))]
IsTx(i) == lay.flat[i].k = "tx"
Still(i) == IsTx(i) \/ \A p \in {"left", "right", "top", "bottom"} : Free(i, p)

Exact == Look => lay.simple
(* a width in pixels is kept unless padding and border need more             *)
Widths == Look => \A i \in Nodes :
  ~IsTx(i) /\ S(i)["width"][1] = "len" /\ Unbound(i, "width") =>
    B(i).w = Max(HFrame(S(i)), Lv(i, "width") + (IF S(i)["box-sizing"] = "ContentBox" THEN HFrame(S(i)) ELSE 0))
Bounds == Look => \A i \in Nodes : ~IsTx(i) =>
  /\ Free(i, "min-width") \/ B(i).w >= Lv(i, "min-width")
  /\ Free(i, "max-width") \/ B(i).w <= Max(Lv(i, "max-width"), HFrame(S(i)))
  /\ Free(i, "min-height") \/ B(i).h >= Lv(i, "min-height")
  /\ Free(i, "max-height") \/ B(i).h <= Max(Lv(i, "max-height"), VFrame(S(i)))
  /\ B(i).w >= HFrame(S(i)) /\ B(i).h >= VFrame(S(i))
(* boxes in the flow fill the width, stand below each other and begin at the *)
(* corner of what is inside their parent                                     *)
Fills == Look => \A i \in Nodes :
  Flows(i) /\ ~IsTx(i) /\ Free(i, "width") /\ Unbound(i, "width") /\ ~Free(i, "margin-left") /\ ~Free(i, "margin-right")
  => Almost(B(i).w, Max(HFrame(S(i)), Inner(Par(i)).w - MarginsOf(S(i))))
Stacks == Look => \A i, j \in Nodes :
     /\ i < j /\ Par(i) = Par(j) /\ Flows(i) /\ Flows(j) /\ Still(i) /\ Still(j) /\ ~lay.hollow[i]
     /\ (\A n \in Nodes : i < n /\ n < j /\ Par(n) = Par(i) => ~Flows(n))
  => Almost(B(j).y, B(i).y + B(i).h)
First == Look => \A i \in Nodes :
     /\ Flows(i) /\ Still(i) /\ (\A n \in Nodes : n < i /\ Par(n) = Par(i) => ~Flows(n))
  => /\ Almost(B(i).y, Inner(Par(i)).t)
     /\ (~IsTx(i) /\ Free(i, "margin-left")) \/ Almost(B(i).x, Inner(Par(i)).l + (IF IsTx(i) THEN 0 ELSE Lv(i, "margin-left")))
Wraps == Look => \A i \in Nodes : \A j \in Nodes :
     /\ ~IsTx(i) /\ Free(i, "height") /\ Unbound(i, "height") /\ Flows(i)
     /\ Par(j) = i /\ Flows(j) /\ Still(j) /\ ~lay.hollow[j] /\ (\A n \in Nodes : n > j /\ Par(n) = i => ~Flows(n))
  => Almost(Inner(i).t + Inner(i).h, B(j).y + B(j).h)
(* boxes out of the flow keep their distance to the inside of the border     *)
Distances == Look => \A i \in Nodes : i > 1 /\ ~Flows(i) =>
  LET p == Par(i) IN
  /\ S(i)["left"][1] = "len" => B(i).x = B(p).x + Lv(p, "border-left-width") + Lv(i, "left")
  /\ S(i)["right"][1] = "len" /\ Free(i, "left") => B(i).x + B(i).w = B(p).x + B(p).w - Lv(p, "border-right-width") - Lv(i, "right")
  /\ S(i)["bottom"][1] = "len" /\ Free(i, "top") => Almost(B(i).y + B(i).h, B(p).y + B(p).h - Lv(p, "border-bottom-width") - Lv(i, "bottom"))
(* opacity is the product along the way to the body; a box is clipped if a   *)
(* box around it scrolls                                                     *)
RECURSIVE Product(_)
Product(i) == IF i = 0 THEN 1000 ELSE (Product(Par(i)) * S(i)["opacity"]) \div 1000
RECURSIVE Around(_)
Around(i) == IF i = 0 THEN {} ELSE {i} \cup Around(Par(i))
Composed == Look => \A i \in Nodes :
  /\ lay.comp[i].op = Product(i)
  /\ (lay.comp[i].clip # <<>>) <=> \E p \in Around(Par(i)) : lay.comp[p].scr # <<>>
  /\ lay.comp[i].clip # <<>> => \E p \in Around(Par(i)) : lay.comp[i].clip = <<B(p).x, B(p).y, B(p).w, B(p).h>>
=============================================================================
