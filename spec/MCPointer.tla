------------------------------ MODULE MCPointer ------------------------------
(* The state graph of the pointer, focus and drag over small scenes, explored *)
(* breadth first: every reachable combination of hovered, pressed, focused    *)
(* and dragged elements with every value and every event (and, with Batches,  *)
(* every two events in one update). What C07..C13 say is stated here over the *)
(* occurrences alone, independently of how BPointer produces them. Every      *)
(* transition is printed; tours of the graph are replayed in the library.     *)
EXTENDS MCDoc, TLCExt

CONSTANT Batches

Kinds == <<"onmouseenter", "onmouseleave", "onmousemove", "onmousedown", "onmouseup", "onclick", "oncontextmenu",
           "ondragstart", "ondragend", "ondragenter", "ondragleave", "ondragover", "ondrop",
           "onfocus", "onblur", "onkeydown", "onkeyup">>
Ev == [t |-> "ev"]
Arg(path) == [t |-> "e", e |-> Ex(path, <<>>)]
Listen(ks, n, args) == [i \in DOMAIN ks |-> On(ks[i], <<Key_(n \o "-" \o ks[i])>> \o args)]
All(n, args) == Listen(Kinds, n, args)
Box(n, bs, kids) == El("div", <<At_("class", n)>> \o bs, kids)
Drag == At_("draggable", "true")
Input(n) == On("oninput", <<Key_(n \o "-input"), Ev>>)
Drop(n) == Listen(<<"ondrop">>, n, <<>>)
CR(n, ds) == Rule(<<One(<<Cls(n)>>)>>, ds)
Sz(w, h) == <<Decl("width", <<PxT(w)>>), Decl("height", <<PxT(h)>>)>>
Off(x, y) == <<Decl("left", <<PxT(x)>>), Decl("top", <<PxT(y)>>)>>
P(x, y) == [e |-> "move", x |-> x * 1000, y |-> y * 1000]
Dn(b) == [e |-> "down", b |-> b]
Rl(b) == [e |-> "up", b |-> b]
V2 == <<Obj(<< <<"v", Bool(TRUE)>> >>), Obj(<< <<"v", Bool(FALSE)>> >>)>>
V1 == <<Obj(<<>>)>>

Keys == <<[e |-> "keydown", k |-> "Enter"], [e |-> "char", c |-> "x"], [e |-> "keyup", k |-> "Tab"]>>

(* [doc, vals, evs] *)
Scenes == <<
  \* 1: a draggable input around a drop target which can disappear
  [doc |-> Doc(Body(<<Box("a", <<Drag, Input("a")>> \o All("a", <<>>),
                          <<Box("b", <<Vis(TRUE, <<"v">>)>> \o All("b", <<Ev>>), <<>>)>>)>>),
              <<CR("a", Sz(100, 60)), CR("b", Sz(40, 30) \o Off(10, 10))>>),
   vals |-> V2,
   evs |-> <<P(20, 20), P(70, 50), P(100, 20), Dn("Left"), Rl("Left"), Rl("Right"), Keys[1]>>],
  \* 2: two inputs beside each other, the second one in a condition
  [doc |-> Doc(Body(<<Box("a", <<Input("a")>> \o All("a", <<>>), <<>>),
                      Box("b", <<Vis(TRUE, <<"v">>), Input("b")>> \o Listen(<<"onfocus", "onblur", "onclick", "onkeyup">>, "b", <<Arg(<<"v">>)>>), <<>>)>>),
              <<CR("a", Sz(60, 20)), CR("b", Sz(60, 20))>>),
   vals |-> V2,
   evs |-> <<P(0, 0), P(59, 20), P(60, 0), Dn("Left"), Dn("Right"), Rl("Left")>> \o Keys],
  \* 3: copies of a repeat: drag from one to the other
  [doc |-> Doc(Body(<<El("div", <<Rep("it", 2, <<"xs">>), At_("class", "a"), Bd("draggable", <<Sp(<<"it">>)>>)>>
                               \o All("a", <<Arg(<<"it">>), Arg(<<"xs">>)>>), <<>>)>>),
              <<CR("a", Sz(50, 20))>>),
   vals |-> <<Obj(<< <<"xs", Arr(<<Bool(TRUE), Str("no")>>)>> >>), Obj(<< <<"xs", Arr(<<Str("true")>>)>> >>),
              Obj(<< <<"xs", Arr(<<Str("0"), Bool(TRUE)>>)>> >>)>>,
   evs |-> <<P(10, 10), P(10, 30), P(90, 10), Dn("Left"), Rl("Left"), Rl("Right")>>],
  \* 4: the layout moves under the mouse: a class changes the height of the first box
  [doc |-> Doc(Body(<<El("div", <<Bd("class", <<Lit("a "), Sp(<<"c">>)>>)>> \o All("a", <<>>), <<>>),
                      Box("b", <<Drag>> \o All("b", <<Ev>>), <<Tx(<<Lit("text")>>)>>)>>),
              <<CR("a", Sz(60, 20)), CR("k", <<Decl("height", <<PxT(40)>>)>>), CR("b", Sz(60, 20) \o <<Decl("cursor", <<Kw("help")>>)>>)>>),
   vals |-> <<Obj(<<>>), Obj(<< <<"c", Str("k")>> >>)>>,
   evs |-> <<P(30, 30), P(30, 10), P(30, 50), Dn("Left"), Rl("Left")>>],
  \* 5: overlapping siblings, one of them transparent for the pointer, nested
  [doc |-> Doc(Body(<<Box("a", All("a", <<>>), <<>>),
                      Box("b", All("b", <<>>), <<Box("c", <<Input("c")>> \o Drop("c"), <<>>)>>),
                      Box("d", <<Bd("draggable", <<Sp(<<"d">>)>>)>> \o Drop("d") \o Listen(<<"ondragstart", "ondragend", "onclick">>, "d", <<>>), <<>>)>>),
              <<CR("a", Sz(80, 40)), CR("b", Sz(80, 40) \o Off(20, -20) \o <<Decl("pointer-events", <<Kw("none")>>)>>),
                CR("c", Sz(30, 30) \o <<Decl("pointer-events", <<Kw("auto")>>), Decl("cursor", <<Kw("wait")>>)>>),
                CR("d", Sz(80, 40) \o Off(10, -50) \o <<Decl("cursor", <<Kw("pointer")>>)>>)>>),
   vals |-> <<Obj(<< <<"d", Bool(TRUE)>> >>), Obj(<<>>)>>,
   evs |-> <<P(5, 5), P(25, 35), P(70, 35), Dn("Left"), Dn("Right"), Rl("Left"), Rl("Right")>>],
  \* 6: rules with pseudo-classes change what is under the mouse
  [doc |-> Doc(Body(<<Box("a", <<Input("a")>> \o Listen(<<"onmouseenter", "onmouseleave", "onclick", "onblur">>, "a", <<Ev>>), <<>>),
                      Box("b", <<Drag, Vis(TRUE, <<"v">>)>> \o Listen(<<"onmouseenter", "onmouseleave", "ondragend", "onclick">>, "b", <<>>), <<>>)>>),
              <<CR("a", Sz(60, 20)), CR("b", Sz(60, 20)),
                Rule(<<One(<<Cls("a"), Pc("hover")>>)>>, <<Decl("height", <<PxT(30)>>)>>),
                Rule(<<One(<<Cls("a"), Pc("focus")>>)>>, <<Decl("width", <<PxT(100)>>)>>),
                Rule(<<[parts |-> <<<<Cls("a"), Pc("active")>>, <<Cls("b")>>>>, combs |-> <<"+">>]>>, <<Decl("visibility", <<Kw("hidden")>>)>>)>>),
   vals |-> V2,
   evs |-> <<P(30, 10), P(30, 25), P(80, 35), P(30, 45), Dn("Left"), Rl("Left"), Keys[1]>>],
  \* 7: draggable elements inside of each other, which are drop targets themselves
  [doc |-> Doc(Body(<<Box("a", <<Drag>> \o All("a", <<>>),
                          <<Box("b", <<Bd("draggable", <<Sp(<<"d">>)>>)>> \o All("b", <<Ev>>),
                                <<Box("c", <<Vis(TRUE, <<"d">>), Drag>> \o Listen(<<"ondragstart", "ondragend", "onclick">>, "c", <<>>), <<>>)>>)>>)>>),
              <<CR("a", Sz(90, 50)), CR("b", Sz(60, 30) \o Off(10, 10)), CR("c", Sz(30, 20))>>),
   vals |-> <<Obj(<< <<"d", Bool(TRUE)>> >>), Obj(<< <<"d", Bool(FALSE)>> >>)>>,
   evs |-> <<P(20, 20), P(60, 30), P(5, 5), Dn("Left"), Dn("Right"), Rl("Left"), Rl("Right")>>] >>

VARIABLES sc, view, v, depth, last, doc, inst, byid
vars == <<sc, view, v, depth, last, doc, inst, byid>>
Key == <<sc, view, v>>

Same == <<[e |-> "none"]>>
BatchesOf(s) ==
  LET evs == Scenes[s].evs
  IN {<<>>} \cup {<<evs[i]>> : i \in DOMAIN evs}
     \cup (IF Batches THEN {<<evs[i], evs[j]>> : i \in DOMAIN evs, j \in DOMAIN evs} ELSE {})

StepOf(w, es) == St(Scenes[sc].vals[w], 0, es)
BoxSeq(f) == LET b == Boxes(f.flat, StylesOf(f)) IN <<>> \o [i \in DOMAIN b |-> <<b[i].x, b[i].y, b[i].w, b[i].h>>]
HitIds(f, bx, p) ==
  {f.flat[i].id : i \in {j \in DOMAIN f.flat : /\ Sty(f.res[j].style, "pointer-events") = "Auto"
                                                /\ Sty(f.res[j].style, "visibility") = "visible"
                                                /\ Covers(bx[j], p)}}
Order(f) == [i \in DOMAIN f.flat |-> f.flat[i].id]

(* an update, and everything the properties need to know about it *)
Update(f, bx, w, es) ==
  LET r == Frame2(f, byid, view, StepOf(w, es), es, bx)
  IN [was |-> view.ptr, now |-> r.view.ptr, occ |-> r.occ, msgs |-> r.msgs, cap |-> r.cap, shape |-> r.shape,
      es |-> es, val |-> Scenes[sc].vals[w], view |-> r.view,
      order |-> Order(f), hits |-> HitIds(f, bx, r.view.ptr.mouse),
      drops |-> {id \in DOMAIN byid : \E i \in DOMAIN byid[id].on : byid[id].on[i].k = "ondrop"},
      inputs |-> {id \in DOMAIN byid : \E i \in DOMAIN byid[id].on : byid[id].on[i].k = "oninput"},
      drags |-> {id \in DOMAIN byid : LET at == AttrsOf(byid[id].bs, Scenes[sc].vals[w])
                                      IN "draggable" \in DOMAIN at /\ at["draggable"] = "true"}]

Init == /\ sc \in DOMAIN Scenes /\ v = 1 /\ depth = 0 /\ last = <<>>
        /\ view = NewView /\ doc = Scenes[sc].doc /\ inst = Instantiate(Scenes[sc].doc) /\ byid = ById(Instantiate(Scenes[sc].doc))
        /\ PrintT("##" \o ToJson([scene |-> sc, doc |-> Scenes[sc].doc, root |-> TLCFP(<<sc, NewView, 1>>)]))

Next == \E w \in DOMAIN Scenes[sc].vals : \E es \in BatchesOf(sc) :
  /\ \E f \in {Frame1(doc, inst, view, StepOf(w, es))} :
     \E bx \in {BoxSeq(f)} :
     \E u \in {Update(f, bx, w, es)} :
       /\ view' = u.view
       /\ last' = [u EXCEPT !.view = <<>>]
  /\ v' = w /\ depth' = depth + 1
  /\ UNCHANGED <<sc, doc, inst, byid>>
  /\ PrintT("##" \o ToJson([s |-> sc, a |-> TLCFP(Key), b |-> TLCFP(<<sc, view', v'>>), st |-> StepOf(w, es)]))

Bound_ == depth < (IF Thorough THEN (IF Batches THEN 3 ELSE 8) ELSE IF Batches THEN 2 ELSE 4)
Spec == Init /\ [][Next]_vars

(* ---- what happened, by kind ---- *)
To(k) == LET s == SelectSeq(last'.occ, LAMBDA o : o[1] = k) IN [i \in DOMAIN s |-> s[i][2]]
Ids(k) == SeqSet(To(k))
Once(k) == Len(To(k)) = Cardinality(Ids(k))
Is(e) == \E i \in DOMAIN last'.es : last'.es[i].e = e
Single == Len(last'.es) <= 1
IsUp(b) == \E i \in DOMAIN last'.es : last'.es[i].e = "up" /\ last'.es[i].b = b
IsDown(b) == \E i \in DOMAIN last'.es : last'.es[i].e = "down" /\ last'.es[i].b = b
Hov0 == SeqSet(last'.was.under)
Hov == SeqSet(last'.now.under)
Act0 == SeqSet(last'.was.inact)
Act == SeqSet(last'.now.inact)
Outermost(ids) == LET at == {i \in DOMAIN last'.order : last'.order[i] \in ids}
                  IN IF at = {} THEN NoneId ELSE last'.order[CHOOSE i \in at : \A j \in at : i <= j]
Innermost(ids) == LET at == {i \in DOMAIN last'.order : last'.order[i] \in ids}
                  IN IF at = {} THEN NoneId ELSE last'.order[CHOOSE i \in at : \A j \in at : i >= j]
Place(id) == CHOOSE i \in DOMAIN last'.order : last'.order[i] = id
(* hovered elements which are released while nothing is dragged: after a drop *)
(* the drag is over for the elements around its target                        *)
Free == IF last'.was.drag = NoneId THEN Hov
        ELSE IF Hov \cap last'.drops = {} THEN {}
        ELSE {id \in Hov : Place(id) < Place(Innermost(Hov \cap last'.drops))}
PosIn(k) == [i \in DOMAIN To(k) |-> CHOOSE j \in DOMAIN last'.order \cup {0} :
               IF \E n \in DOMAIN last'.order : last'.order[n] = To(k)[i] THEN j > 0 /\ last'.order[j] = To(k)[i] ELSE j = 0]
(* one bit switched on and off by two kinds of occurrences, for every element *)
RECURSIVE Switch(_, _, _, _)
Switch(occ, a, b, on) ==     \* the set at the end, or <<>> if they did not alternate
  IF occ = <<>> THEN <<on>>
  ELSE LET o == Head(occ)
       IN IF o[1] = a THEN IF o[2] \in on THEN <<>> ELSE Switch(Tail(occ), a, b, on \cup {o[2]})
          ELSE IF o[1] = b THEN IF o[2] \notin on THEN <<>> ELSE Switch(Tail(occ), a, b, on \ {o[2]})
          ELSE Switch(Tail(occ), a, b, on)
Alternate(a, b, before, after) == Switch(last'.occ, a, b, before) = <<after>>
OneOf(id) == IF id = NoneId THEN {} ELSE {id}

(* events in front of the first move of an update find the elements which were *)
(* under the mouse in the frame before                                         *)
Early == ~Single /\ last'.es[1].e # "move" /\ last'.es[2].e = "move" /\ ~(Hov0 \subseteq SeqSet(last'.order))
(* ---- C07 ---- *)
HoverFollows == Hov = last'.hits /\ Len(last'.now.under) = Cardinality(Hov)
EnterLeave == Alternate("onmouseenter", "onmouseleave", Hov0, Hov)
Moves == Single => Ids("onmousemove") = Hov /\ Once("onmousemove")
(* ---- C08 ---- *)
Presses == Single => /\ Ids("onmousedown") = IF Is("down") THEN Hov ELSE {}
                     /\ Ids("onmouseup") = IF Is("up") THEN Hov ELSE {}
                     /\ Act = IF Is("up") THEN {} ELSE IF Is("down") THEN Act0 \cup Hov ELSE Act0
                     /\ Once("onmousedown") /\ Once("onmouseup") /\ Once("onclick") /\ Once("oncontextmenu")
                     /\ Ids("onclick") = IF IsUp("Left") THEN Act0 \cap Free ELSE {}
                     /\ Ids("oncontextmenu") = IF IsUp("Right") THEN Free ELSE {}
(* ---- C09 ---- *)
Focuses == /\ Alternate("onfocus", "onblur", OneOf(last'.was.focus), OneOf(last'.now.focus))
           /\ Ids("onfocus") \subseteq last'.inputs
           /\ last'.now.focus # NoneId /\ ~Early => last'.now.focus \in SeqSet(last'.order)
           /\ Single => last'.now.focus = IF Is("down") THEN Outermost(Hov \cap last'.inputs)
                                          ELSE IF last'.was.focus \in SeqSet(last'.order) THEN last'.was.focus ELSE NoneId
           /\ Single /\ last'.was.focus = last'.now.focus /\ (Is("down") => Cardinality(Hov \cap last'.inputs) <= 1)
                => To("onfocus") = <<>> /\ To("onblur") = <<>>
Keyboards == Single => /\ To("onkeydown") = IF Is("keydown") /\ last'.now.focus # NoneId THEN <<last'.now.focus>> ELSE <<>>
                       /\ To("onkeyup") = IF Is("keyup") /\ last'.now.focus # NoneId THEN <<last'.now.focus>> ELSE <<>>
                       /\ To("oninput") = IF Is("char") /\ last'.now.focus # NoneId THEN <<last'.now.focus>> ELSE <<>>
(* ---- C10 ---- *)
DragsEnd == Alternate("ondragstart", "ondragend", OneOf(last'.was.drag), OneOf(last'.now.drag))
Drags == DragsEnd /\ Single =>
  LET d0 == last'.was.drag
      up == Is("up")
      can == Hov \cap last'.drags
  IN /\ To("ondragstart") = IF IsDown("Left") /\ d0 = NoneId /\ can # {} THEN <<Innermost(can)>> ELSE <<>>
     /\ last'.now.drag = IF up THEN NoneId ELSE IF To("ondragstart") # <<>> THEN To("ondragstart")[1] ELSE d0
     /\ To("ondragend") = IF up /\ d0 # NoneId THEN <<d0>> ELSE <<>>
     /\ To("ondrop") = IF up /\ d0 # NoneId /\ Hov \cap last'.drops # {} THEN <<Innermost(Hov \cap last'.drops)>> ELSE <<>>
     /\ To("ondragenter") = IF d0 # NoneId THEN To("onmouseenter") ELSE <<>>
     /\ To("ondragleave") = IF d0 # NoneId THEN To("onmouseleave") ELSE <<>>
     /\ To("ondragover") = IF d0 # NoneId THEN To("onmousemove") ELSE <<>>
     /\ To("ondrop") # <<>> => \E i, j \in DOMAIN last'.occ : i < j /\ last'.occ[i][1] = "ondrop" /\ last'.occ[j][1] = "ondragend"
(* ---- C11 ---- *)
Messages == Len(last'.msgs) = Len(SelectSeq(last'.occ, LAMBDA o : \E i \in DOMAIN byid[o[2]].on : byid[o[2]].on[i].k = o[1]))
(* ---- C12: the order for one event, and batches ---- *)
Falling(s) == \A i, j \in DOMAIN s : i < j => s[i] > s[j]
InnerFirst == Single => \A k \in SeqSet(Kinds) \ {"onmouseleave", "ondragleave"} : Falling(PosIn(k))
LeavesFirst == Single => \A i, j \in DOMAIN last'.occ :
                 last'.occ[i][1] \in {"onmouseenter", "onmousemove"} /\ last'.occ[j][1] = "onmouseleave" => j < i
NotMove(o) == o[1] \notin {"onmousemove", "ondragover"}
Batched ==
  Len(last'.es) = 2 =>
    \E f1 \in {Frame1(doc, inst, view, St(last'.val, 0, <<>>))} :
    \E b1 \in {BoxSeq(f1)} :
    \E r1 \in {Frame2(f1, byid, view, St(last'.val, 0, <<>>), <<last'.es[1]>>, b1)} :
    \E f2 \in {Frame1(doc, inst, r1.view, St(last'.val, 0, <<>>))} :
    \E b2 \in {BoxSeq(f2)} :
    \E r2 \in {Frame2(f2, byid, r1.view, St(last'.val, 0, <<>>), <<last'.es[2]>>, b2)} :
      LET still == b1 = b2 /\ Order(f1) = Order(f2) /\ HitIds(f1, b1, last'.now.mouse) = HitIds(f2, b2, last'.now.mouse)
          \* events in front of the first move find the elements as they were
          stale == last'.es[1].e # "move" /\ last'.es[2].e = "move" /\ Hov0 # SeqSet(r1.view.ptr.under)
      IN still /\ ~stale => /\ SelectSeq(last'.occ, NotMove) = SelectSeq(r1.occ \o r2.occ, NotMove)
                            /\ last'.now = r2.view.ptr
(* ---- C13 ---- *)
Capture == last'.cap <=> (last'.hits # {} \/ last'.now.drag # NoneId \/ last'.now.focus # NoneId \/ Act # {})

C07_HoverFollows == [][HoverFollows]_vars
C07_EnterLeave == [][EnterLeave]_vars
C07_Moves == [][Moves]_vars
C08_Presses == [][Presses]_vars
C09_Focuses == [][Focuses]_vars
C09_Keyboards == [][Keyboards]_vars
C10_Drags == [][Drags]_vars
C11_Messages == [][Messages]_vars
C12_InnerFirst == [][InnerFirst]_vars
C12_LeavesFirst == [][LeavesFirst]_vars
C12_Batched == [][Batched]_vars
C13_Capture == [][Capture]_vars
=============================================================================
