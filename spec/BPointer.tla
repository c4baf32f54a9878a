------------------------------ MODULE BPointer ------------------------------
(* Mouse and keyboard: hovered elements, buttons, focus, drag and messages.  *)
(*                                                                           *)
(* State of input (of a view):                                               *)
(*   under - ids of the nodes under the mouse, in tree order                 *)
(*   inact - ids of the pressed nodes (since the last release)               *)
(*   focus, drag - an id or NoneId                                           *)
(*   mouse - latest position <<x, y>>                                        *)
(* The view a frame is processed against, a context cx:                      *)
(*   nodes - displayed nodes [id, g, hit, cursor] in tree order, g is the    *)
(*           box <<x, y, w, h>>                                              *)
(*   geo   - [id -> latest box] for all nodes with listeners displayed once  *)
(*   inst  - [id -> instance node] (listeners and bindings)                  *)
(*   val   - the value of the model                                          *)
(* Positions and sizes are in thousandths.                                   *)
EXTENDS BTemplate, FiniteSets

NoInput == [under |-> <<>>, inact |-> <<>>, focus |-> NoneId, drag |-> NoneId, mouse |-> <<0, 0>>]

In(x, seq) == \E i \in DOMAIN seq : seq[i] = x

RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))

(* left and top edges belong to the box, right and bottom do not *)
Covers(g, p) == /\ g[1] <= p[1] /\ p[1] < g[1] + g[3]
                /\ g[2] <= p[2] /\ p[2] < g[2] + g[4]

Hit(cx, p) ==
  LET hits == SelectSeq(cx.nodes, LAMBDA n : n.hit /\ Covers(n.g, p))
  IN [i \in DOMAIN hits |-> hits[i].id]

(* ---- listeners and messages ---- *)
Listeners(cx, id, event) == SelectSeq(cx.inst[id].on, LAMBDA l : l.k = event)
Listens(cx, id, event) == Listeners(cx, id, event) # <<>>

AttrsAt(cx, id) == AttrsOf(cx.inst[id].bs, cx.val)
Pulls(at) == "draggable" \in DOMAIN at /\ at["draggable"] = "true"
(* copies which are not in their list any more keep the attributes which they *)
(* had (they may be found by events in front of the first move of an update)  *)
Gone(cx, id) ==
  \E p \in {q \in DOMAIN id : q % 2 = 0 /\ id[q] > 0} :
    LET ks == cx.inst[SubSeq(id, 1, p - 2)].kids
    IN \E i \in DOMAIN ks : ks[i].n.id = SubSeq(id, 1, p) /\ ~Shown(ks[i].when, cx.val)
Draggable(cx, id) == IF Gone(cx, id) THEN id \in cx.tow ELSE Pulls(AttrsAt(cx, id))

(* state of the input is the state of the elements *)
Target(st, cx, id) ==
  LET g == cx.geo[id]
  IN Obj(<< <<"position", Arr(<<Milli(g[1]), Milli(g[2])>>)>>,
            <<"size", Arr(<<Milli(g[3]), Milli(g[4])>>)>>,
            <<"state", Obj(<< <<"active", Bool(In(id, st.inact))>>, <<"checked", Bool(FALSE)>>,
                              <<"focus", Bool(st.focus = id)>>, <<"hover", Bool(In(id, st.under))>> >>)>> >>)

MouseData(st) == << <<"position", Arr(<<Milli(st.mouse[1]), Milli(st.mouse[2])>>)>> >>
KeyData(k) == << <<"key", Str(k)>> >>
CharData(c) == << <<"char", Str(c)>> >>

Argument(a, st, cx, id, data) ==
  CASE a.t = "key" -> Str(a.v)
    [] a.t = "ev" -> Obj(Append(data, <<"target", Target(st, cx, id)>>))
    [] a.t = "e" -> Bound(a.e, cx.val)

Message(l, st, cx, id, data) ==
  LET args == [i \in DOMAIN l.args |-> Argument(l.args[i], st, cx, id, data)]
      key == IF args = <<>> THEN "Undefined" ELSE EvalString(args[1])
      rest == IF args = <<>> THEN <<>> ELSE [i \in DOMAIN Tail(args) |-> Norm(Tail(args)[i])]
  IN IF Len(rest) = 0 THEN Str(key)
     ELSE IF Len(rest) = 1 THEN Obj(<< <<key, rest[1]>> >>)
     ELSE Obj(<< <<key, Arr(rest)>> >>)

(* acc = [st, msgs]; occ records what happened to whom, for the properties *)
Emit(acc, cx, id, event, data) ==
  LET ls == Listeners(cx, id, event)
      seen == [acc EXCEPT !.occ = Append(@, <<event, id>>)]
  IN IF ls = <<>> THEN seen
     ELSE [seen EXCEPT !.msgs = Append(@, Message(ls[Len(ls)], acc.st, cx, id, data))]

EmitMouse(acc, cx, id, event) == Emit(acc, cx, id, event, MouseData(acc.st))

(* ---- mouse move ---- *)
RECURSIVE Leave(_, _, _)
Leave(ids, acc, cx) ==      \* acc.st.under is already the new one
  IF ids = <<>> THEN acc
  ELSE LET id == Head(ids)
           a1 == EmitMouse(acc, cx, id, "onmouseleave")
           a2 == IF acc.st.drag # NoneId THEN EmitMouse(a1, cx, id, "ondragleave") ELSE a1
       IN Leave(Tail(ids), IF In(id, acc.st.under) THEN acc ELSE a2, cx)

RECURSIVE Enter(_, _, _, _, _)
(* elements become hovered one by one, so seen is the set of those which are *)
Enter(ids, before, all, acc, cx) ==
  IF ids = <<>> THEN acc
  ELSE LET id == Head(ids)
           dragging == acc.st.drag # NoneId
           a1 == IF In(id, before) THEN acc ELSE EmitMouse(acc, cx, id, "onmouseenter")
           a2 == IF In(id, before) \/ ~dragging THEN a1 ELSE EmitMouse(a1, cx, id, "ondragenter")
           a3 == EmitMouse(a2, cx, id, "onmousemove")
           a4 == IF dragging THEN EmitMouse(a3, cx, id, "ondragover") ELSE a3
       IN Enter(Tail(ids), before, all, a4, cx)

Move(acc, cx, p) ==
  LET before == acc.st.under
      now == Hit(cx, p)
      a0 == [acc EXCEPT !.st.mouse = p, !.st.under = now]
      a1 == Leave(Rev(before), a0, cx)
  IN Enter(Rev(now), before, now, a1, cx)

(* ---- buttons ---- *)
Blur(acc, cx) ==
  IF acc.st.focus = NoneId THEN acc
  ELSE EmitMouse([acc EXCEPT !.st.focus = NoneId], cx, acc.st.focus, "onblur")

Press(acc, cx, id, button) ==
  LET a1 == [acc EXCEPT !.st.inact = Append(@, id)]
      a2 == IF Listens(cx, id, "oninput") /\ a1.st.focus # id
            THEN LET b == Blur(a1, cx)
                 IN EmitMouse([b EXCEPT !.st.focus = id], cx, id, "onfocus")
            ELSE a1
      a3 == EmitMouse(a2, cx, id, "onmousedown")
  IN IF button = "Left" /\ a3.st.drag = NoneId /\ Draggable(cx, id)
     THEN LET d == EmitMouse(a3, cx, id, "ondragstart") IN [d EXCEPT !.st.drag = id]
     ELSE a3

RECURSIVE PressAll(_, _, _, _)
PressAll(ids, acc, cx, button) ==
  IF ids = <<>> THEN acc ELSE PressAll(Tail(ids), Press(acc, cx, Head(ids), button), cx, button)

Down(acc, cx, button) ==
  LET a0 == IF acc.st.focus # NoneId /\ ~In(acc.st.focus, acc.st.under) THEN Blur(acc, cx) ELSE acc
  IN PressAll(Rev(a0.st.under), a0, cx, button)

Release(acc, cx, id, button) ==
  LET a1 == EmitMouse(acc, cx, id, "onmouseup")
      source == a1.st.drag
  IN IF source # NoneId
     THEN IF Listens(cx, id, "ondrop")
          THEN LET d == EmitMouse(a1, cx, id, "ondrop")
               IN EmitMouse([d EXCEPT !.st.drag = NoneId], cx, source, "ondragend")
          ELSE a1
     ELSE IF button = "Left" /\ In(id, a1.st.inact) THEN EmitMouse(a1, cx, id, "onclick")
     ELSE IF button = "Right" THEN EmitMouse(a1, cx, id, "oncontextmenu")
     ELSE a1

RECURSIVE ReleaseAll(_, _, _, _)
ReleaseAll(ids, acc, cx, button) ==
  IF ids = <<>> THEN acc ELSE ReleaseAll(Tail(ids), Release(acc, cx, Head(ids), button), cx, button)

Up(acc, cx, button) ==
  LET a1 == ReleaseAll(Rev(acc.st.under), acc, cx, button)
      source == a1.st.drag
      a2 == IF source # NoneId
            THEN EmitMouse([a1 EXCEPT !.st.drag = NoneId], cx, source, "ondragend") ELSE a1
  IN [a2 EXCEPT !.st.inact = <<>>]

(* ---- keyboard ---- *)
Keyboard(acc, cx, event, data) ==
  IF acc.st.focus = NoneId THEN acc ELSE Emit(acc, cx, acc.st.focus, event, data)

Event(acc, cx, e) ==
  CASE e.e = "move" -> Move(acc, cx, <<e.x, e.y>>)
    [] e.e = "down" -> Down(acc, cx, e.b)
    [] e.e = "up" -> Up(acc, cx, e.b)
    [] e.e = "keydown" -> Keyboard(acc, cx, "onkeydown", KeyData(e.k))
    [] e.e = "keyup" -> Keyboard(acc, cx, "onkeyup", KeyData(e.k))
    [] e.e = "char" -> Keyboard(acc, cx, "oninput", CharData(e.c))
    [] OTHER -> acc     \* wheel and unknown events

RECURSIVE Events(_, _, _)
Events(es, acc, cx) == IF es = <<>> THEN acc ELSE Events(Tail(es), Event(acc, cx, Head(es)), cx)

IsMove(e) == e.e = "move"

(* one update; without mouse moves the elements under the resting mouse are  *)
(* determined again first                                                    *)
HandleInput(st, cx, events) ==
  LET es == IF \E i \in DOMAIN events : IsMove(events[i]) THEN events
            ELSE <<[e |-> "move", x |-> st.mouse[1], y |-> st.mouse[2]]>> \o events
      a0 == [st |-> st, msgs |-> <<>>, occ |-> <<>>]
      gone == st.focus # NoneId /\ ~\E i \in DOMAIN cx.nodes : cx.nodes[i].id = st.focus
  IN Events(es, IF gone THEN Blur(a0, cx) ELSE a0, cx)

(* ---- output ---- *)
Captured(st) == st.under # <<>> \/ st.drag # NoneId \/ st.focus # NoneId \/ st.inact # <<>>

Shape(st, cx) ==
  LET over == SelectSeq(cx.nodes, LAMBDA n : In(n.id, st.under) /\ n.cursor # "Auto")
  IN IF over = <<>> THEN "Auto" ELSE over[Len(over)].cursor
=============================================================================
