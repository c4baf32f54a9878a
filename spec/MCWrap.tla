------------------------------- MODULE MCWrap --------------------------------
(* Texts which are broken into lines: every form of a box with texts in it,   *)
(* every change of the texts and of the font (C22). The boxes have to satisfy *)
(* WrapLaws (BLayout); here TLC checks that the laws are about something:     *)
(* lines of texts in boxes of the width which the forms give them.            *)
EXTENDS MCDoc

Pxs(p, n) == Decl(p, <<PxT(n)>>)
KwD(p, s) == Decl(p, <<Kw(s)>>)
Outer == <<
  <<Pxs("width", 60)>>,
  <<Pxs("width", 90), Decl("padding", <<PxT(4), PxT(10)>>), Decl("border-width", <<PxT(1), PxT(3)>>)>>,
  <<>>,
  <<KwD("position", "absolute"), Pxs("left", 5), Pxs("top", 7)>>,
  <<KwD("position", "absolute"), Pxs("left", 20), Pxs("right", 30)>>,
  <<KwD("display", "flex"), Pxs("width", 100)>>,
  <<KwD("display", "flex")>>,
  <<KwD("display", "flex"), KwD("flex-direction", "column"), Pxs("width", 50)>>,
  <<KwD("display", "flex"), KwD("flex-direction", "column"), KwD("align-items", "center"), Pxs("width", 70)>>,
  <<KwD("display", "flex"), Pxs("width", 80), Pxs("column-gap", 6), KwD("align-items", "start")>> >>
InnerForms == << <<>>, <<Pxs("width", 30)>>, <<KwD("position", "absolute"), Pxs("right", 2)>>, <<KwD("display", "flex")>>, <<Pxs("max-width", 20)>> >>
Bodies == << <<>>, <<Pxs("width", 200)>>, <<Pxs("width", 120), Pxs("padding", 8)>> >>
Strings == <<"", "io", "Hammer", "somewhat longer">>
Fonts_ == <<"", "big", "bold">>
NS == Len(Strings)

DocOf(b, o, i) ==
  Doc(Body(<<El("div", <<At_("class", "o"), Bd("id", <<Sp(<<"f">>)>>)>>,
                <<Tx(<<Sp(<<"t">>)>>)>>
                \o (IF i = 0 THEN <<>> ELSE <<El("p", <<At_("class", "i")>>, <<Tx(<<Sp(<<"u">>)>>)>>)>>))>>),
      <<Rule(<<One(<<Tag("body")>>)>>, Bodies[b]), Rule(<<One(<<Cls("o")>>)>>, Outer[o]),
        Rule(<<One(<<[s |-> "id", n |-> "big"]>>)>>, <<Pxs("font-size", 24)>>),
        Rule(<<One(<<[s |-> "id", n |-> "bold"]>>)>>, <<Decl("font-weight", <<NumT(700000)>>), KwD("font-style", "italic")>>)>>
      \o (IF i = 0 THEN <<>> ELSE <<Rule(<<One(<<Cls("i")>>)>>, InnerForms[i])>>))

(* numbers of values: text, inner text and font; every one after every other  *)
(* text and after every other font                                           *)
ValueOf(n) ==
  LET t == 1 + (n % NS) u == 1 + ((n \div NS) % NS) f == 1 + ((n \div (NS * NS)) % 3)
  IN Obj(<< <<"f", Str(Fonts_[f])>>, <<"t", Str(Strings[t])>>, <<"u", Str(Strings[u])>> >>)
Count_ == NS * NS * 3
Jump(k) == CASE k % 3 = 0 -> k \div 3 [] k % 3 = 1 -> (7 * (k \div 3) + 5) % Count_ [] OTHER -> (k \div 3 + 16) % Count_
Changes == IF Thorough THEN 3 * Count_ ELSE Count_

VARIABLES b, o, i, k, doc, inst, frame
vars == <<b, o, i, k, doc, inst, frame>>
Key == <<b, o, i, k>>
Init == /\ b \in DOMAIN Bodies /\ o \in DOMAIN Outer /\ i \in 0..Len(InnerForms)
        /\ (~Thorough => (b + o + i) % 3 = 0)
        /\ k = 0 /\ doc = DocOf(b, o, i) /\ inst = Instantiate(doc) /\ frame = <<>>
        /\ PrintT("##" \o ToJson([doc |-> doc, opts |-> [fonts |-> "wrap"],
                                  steps |-> [n \in 1..Changes |-> St(ValueOf(Jump(n - 1)), 0, <<>>)]]))
Next == /\ k < Changes /\ k' = k + 1
        /\ \E f \in {Frame1(doc, inst, NewView, St(ValueOf(Jump(k)), 0, <<>>))} :
             frame' = [flat |-> f.flat, ss |-> StylesOf(f)]
        /\ UNCHANGED <<b, o, i, doc, inst>>

(* boxes which follow the laws, for a box with one text in a body of a known  *)
(* width; and boxes which do not                                              *)
Wide(p) == Max(0, (IF b = 2 THEN 200 ELSE 104) * 1000)
Fitting(box, w, lines) ==
  LET ss == frame.ss IN
  [n \in DOMAIN frame.flat |->
     CASE n = 1 -> <<0, 0, 200000, 100000, 0, 0>>
       [] n = 2 -> <<0, 0, box + HFrame(ss[2]), lines * TextHeight(ss[3]) + VFrame(ss[2]), 0, 0>>
       [] OTHER -> <<0, 0, w, lines * TextHeight(ss[3]), 0, 0>>]
Alone == k > 0 /\ Len(frame.flat) = 3 /\ o \in {1, 2, 8}
WidthIn == CASE o = 1 -> 60000 [] o = 2 -> 64000 [] OTHER -> 50000
Consistent == Alone =>
  LET n == TextWidth(frame.flat[3], frame.ss[3])
      lines == LinesIn(n, WidthIn)
  IN /\ n > 0 => lines >= 1 /\ (lines - 1) * WidthIn < n
     /\ lines * WidthIn >= n
     /\ WrapLaws(frame.flat, frame.ss, Fitting(WidthIn, WidthIn, lines)) = {}
     /\ <<"lines", 3>> \in WrapLaws(frame.flat, frame.ss, Fitting(WidthIn, WidthIn, lines + 1))
     /\ (o # 8 => <<"fills", 3>> \in WrapLaws(frame.flat, frame.ss, Fitting(WidthIn, WidthIn + 2000, lines)))
=============================================================================
