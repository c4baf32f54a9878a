------------------------------ MODULE MCCopies ------------------------------
(* Equal copies (of a repeat, of nested repeats, of a template) are hovered,  *)
(* pressed and focused one after the other in every order, while some come    *)
(* and go. Each must look and hear as if it were alone: the invariant runs    *)
(* the specification for every copy in a document of its own (C25).           *)
EXTENDS MCDoc

Boxed(bs) == El("div", bs \o <<At_("class", "box"), On("oninput", <<>>), On("onfocus", <<>>), On("onblur", <<>>), On("onclick", <<>>),
                               On("onmouseenter", <<>>), On("onmouseleave", <<>>), On("onmousedown", <<>>), On("onkeydown", <<>>)>>, <<>>)
Link(bs) == El("link", bs \o <<At_("href", "#t")>>, <<>>)
Linked(n) == n = 1 \/ n = 3
(* 1 copies of a repeat of a template, and two more links 2 nested repeats    *)
(* 3 a template with two elements in it, twice                                *)
Forms == 1..3
BodyOf(n) ==
  CASE n = 1 -> <<Link(<<Rep("it", 2, <<"xs">>)>>), El("div", <<Vis(TRUE, <<"v">>)>>, <<Link(<<>>), Link(<<>>)>>)>>
    [] n = 2 -> <<El("div", <<Rep("row", 2, <<"xs">>)>>, <<El("p", <<>>, <<>>), Boxed(<<Rep("it", 2, <<"row">>)>>)>>)>>
    [] n = 3 -> <<El("div", <<Vis(TRUE, <<"v">>)>>, <<Boxed(<<>>)>>), El("div", <<Rep("it", 2, <<"xs">>)>>, <<Boxed(<<>>)>>), Boxed(<<>>)>>
Box_ == Rule(<<One(<<Cls("box")>>)>>,
             <<Decl("width", <<PxT(40)>>), Decl("height", <<PxT(20)>>), Decl("flex-shrink", <<Zero>>), Decl("opacity", <<Zero>>),
               Decl("transition-property", <<Kw("opacity")>>), Decl("transition-duration", <<TimeT(4)>>)>>)
State(pc, ds) == Rule(<<One(<<Cls("box"), Pc(pc)>>)>>, ds)
Rules_ == <<Box_, State("hover", <<Decl("opacity", <<NumT(1000)>>)>>),
            State("active", <<Decl("font-weight", <<NumT(700000)>>)>>),
            State("focus", <<Decl("animation-name", <<Kw("run")>>), Decl("animation-duration", <<TimeT(16)>>), Decl("animation-iteration-count", <<Kw("infinite")>>)>>)>>
Frames_ == "run" :> <<[step |-> 0, ds |-> <<Decl("left", <<Zero>>)>>], [step |-> 100, ds |-> <<Decl("left", <<PxT(16)>>)>>]>>
DocOf(n) == [Doc(Body(BodyOf(n)), Rules_) EXCEPT !.anims = Frames_, !.tpls = IF n = 1 THEN << [id |-> "#t", root |-> Boxed(<<>>)] >> ELSE <<>>]
Solo == [Doc(Body(<<Boxed(<<Vis(TRUE, <<"s">>)>>)>>), Rules_) EXCEPT !.anims = Frames_]
SoloInst == Instantiate(Solo)
SoloById == ById(SoloInst)

Copies == 4
E_ == Arr(<<Null, Null>>)
Vals == <<Obj(<< <<"v", Bool(TRUE)>>, <<"xs", Arr(<<E_, E_>>)>> >>),
          Obj(<< <<"v", Bool(FALSE)>>, <<"xs", Arr(<<E_, Arr(<<Null>>)>>)>> >>),
          Obj(<< <<"v", Bool(TRUE)>>, <<"xs", Arr(<<Arr(<<Null>>)>>)>> >>)>>
(* which copies are displayed: form, value *)
There(n, w) ==
  CASE n = 1 -> <<TRUE, w # 3, w # 2, w # 2>>
    [] n = 2 -> <<TRUE, w # 3, w # 3, w = 1>>
    [] n = 3 -> <<w # 2, TRUE, w # 3, TRUE>>

(* symbols: over which copy the mouse moves (0: none), what is pressed, value *)
Acts == 4
Symbols == (Copies + 1) * Acts * (IF Thorough THEN 3 ELSE 1)
Word == <<>> \o Tour(Symbols)
Per == IF Thorough THEN 150 ELSE 100
Pieces == (Len(Word) + Per - 1) \div Per
Piece(p) == LET from == (p - 1) * Per IN SubSeq(Word, from + 1, Min(Len(Word), from + Per))
ValOf(y, n) == IF Thorough THEN 1 + (y \div (Acts * (Copies + 1))) ELSE 1 + ((n \div 7) % 3)
Place(y) == y % (Copies + 1)
Act(y) == (y \div (Copies + 1)) % Acts
(* where the copies are: all of them are 40 wide and 20 high *)
EventsOf(spot, act) ==
  <<[e |-> "move", x |-> spot[1], y |-> spot[2]]>>
  \o (CASE act = 0 -> <<>> [] act = 1 -> <<[e |-> "down", b |-> "Left"]>> [] act = 2 -> <<[e |-> "up", b |-> "Left"]>> [] act = 3 -> <<[e |-> "keydown", k |-> "Enter"]>>)
Away == <<700000, 500000>>
StylesBoxes(f) == LET b == Boxes(f.flat, StylesOf(f)) IN <<>> \o [i \in DOMAIN b |-> <<b[i].x, b[i].y, b[i].w, b[i].h>>]
(* displayed index of each copy, 0 if it is not *)
IndexOf(f, n, w) ==
  LET at == SelectSeq([i \in DOMAIN f.flat |-> i], LAMBDA i : f.flat[i].k = "el" /\ "class" \in DOMAIN f.flat[i].at)
      there == There(n, w)
      nth(i) == Cardinality({j \in 1..i : there[j]})
  IN [i \in 1..Copies |-> IF there[i] THEN at[nth(i)] ELSE 0]

VARIABLES n_, p_, k, y_, doc, inst, byid, view, solos, seen, steps
vars == <<n_, p_, k, y_, doc, inst, byid, view, solos, seen, steps>>
Key == <<n_, p_, k>>
Init == /\ n_ \in Forms /\ p_ \in 1..Pieces /\ k = 0 /\ y_ = Piece(p_)
        /\ doc = DocOf(n_) /\ inst = Instantiate(doc) /\ byid = ById(inst) /\ view = NewView
        /\ solos = [i \in 1..Copies |-> NewView] /\ seen = <<>> /\ steps = <<>>
Next ==
  /\ k < Len(y_) /\ k' = k + 1 /\ UNCHANGED <<n_, p_, y_, doc, inst, byid>>
  /\ \E y \in {y_[k + 1] - 1} : \E w \in {ValOf(y, k)} :
     \E f \in {Frame1(doc, inst, view, St(Vals[w], 1, <<>>))} :
     \E bx \in {StylesBoxes(f)} :
     \E at \in {IndexOf(f, n_, w)} :
     \E spot \in {IF Place(y) = 0 \/ at[Place(y)] = 0 THEN Away ELSE <<bx[at[Place(y)]][1] + 20000, bx[at[Place(y)]][2] + 10000>>} :
     \E st \in {St(Vals[w], 1, EventsOf(spot, Act(y)))} :
     \E r \in {Frame2(f, byid, view, st, st.ev, bx)} :
     \E ones \in {<<>> \o [i \in 1..Copies |->
                    LET sv == St(Obj(<< <<"s", Bool(at[i] # 0)>> >>), 1, st.ev)
                        f1 == Frame1(Solo, SoloInst, solos[i], sv)
                        r1 == Frame2(f1, SoloById, solos[i], sv, st.ev, <<bx[1]>> \o (IF at[i] = 0 THEN <<>> ELSE <<bx[at[i]]>>))
                    IN [view |-> r1.view, st |-> IF at[i] = 0 THEN <<>> ELSE f1.res[2].style,
                        occ |-> LET own == SelectSeq(r1.occ, LAMBDA o : o[2] # <<>>) IN [j \in DOMAIN own |-> own[j][1]]]]} :
       /\ view' = r.view
       /\ solos' = <<>> \o [i \in 1..Copies |-> ones[i].view]
       /\ steps' = Append(steps, st)
       /\ seen' = [styles |-> <<>> \o [i \in 1..Copies |-> IF at[i] = 0 THEN <<>> ELSE f.res[at[i]].style],
                   alone |-> <<>> \o [i \in 1..Copies |-> ones[i].st],
                   ids |-> <<>> \o [i \in 1..Copies |-> IF at[i] = 0 THEN <<>> ELSE f.flat[at[i]].id],
                   occ |-> r.occ, heard |-> <<>> \o [i \in 1..Copies |-> ones[i].occ]]
       /\ (k' = Len(y_) => Emit_(doc, steps'))

Heard(id) == LET s == SelectSeq(seen.occ, LAMBDA o : o[2] = id) IN [i \in DOMAIN s |-> s[i][1]]
LooksAlone == k > 0 => seen.styles = seen.alone
(* (a blur of a copy which is gone is heard in the frame in which it goes)    *)
HearsAlone == k > 0 => \A i \in 1..Copies : seen.ids[i] # <<>> => Heard(seen.ids[i]) = seen.heard[i]
=============================================================================
