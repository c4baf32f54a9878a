------------------------------- MODULE Bumaga -------------------------------
(* A view: a document, a stylesheet and its state over updates.              *)
(*                                                                           *)
(* doc:   [tpls, body, rules, anims, inl]  (anims as a function by name)     *)
(* view:  [ptr (BPointer), motion (id -> BAnim), geo (id -> box)]            *)
(* step:  [value, dt (eighths of second), vp (<<w, h>> pixels)]              *)
(* An update is a function of the document, the view and the step, apart     *)
(* from the geometry of the frame, which is given (observed or specified).   *)
EXTENDS BStyle, BPointer, BLayout

NewView == [ptr |-> NoInput, motion |-> <<>>, geo |-> <<>>, tow |-> {}]

SeqSet(s) == {s[i] : i \in DOMAIN s}

PseudoState(ptr) == [hov |-> SeqSet(ptr.under), act |-> SeqSet(ptr.inact), foc |-> {ptr.focus} \ {NoneId}]

(* the part of an update before layout *)
Frame1(doc, inst, view, step) ==
  LET flat == Display(inst, step.value)
  IN [flat |-> flat, res |-> Styles(doc, flat, PseudoState(view.ptr), view.motion, step)]

StylesOf(f) == [i \in DOMAIN f.res |-> Full(f.res[i].style)]

(* tow: elements under the mouse in the frame before which were draggable     *)
Context(f, byid, boxes, geo, tow, val) ==
  [nodes |-> [i \in DOMAIN f.flat |->
                [id |-> f.flat[i].id, g |-> boxes[i],
                 hit |-> Sty(f.res[i].style, "pointer-events") = "Auto" /\ Sty(f.res[i].style, "visibility") = "visible",
                 cursor |-> Sty(f.res[i].style, "cursor")]],
   geo |-> geo, inst |-> byid, tow |-> tow, val |-> val]

(* boxes: Seq(<<x, y, w, h>>) of the displayed nodes *)
Frame2(f, byid, view, step, events, boxes) ==
  LET lis == {i \in DOMAIN f.flat : f.flat[i].lis}
      geo == [id \in {f.flat[i].id : i \in lis} |->
                boxes[CHOOSE i \in lis : f.flat[i].id = id]] @@ view.geo
      cx == Context(f, byid, boxes, geo, view.tow, step.value)
      r == HandleInput(view.ptr, cx, events)
  IN [view |-> [ptr |-> r.st, motion |-> NextMotion(view.motion, f.res), geo |-> geo,
                tow |-> {f.flat[i].id : i \in {j \in DOMAIN f.flat : In(f.flat[j].id, r.st.under) /\ Pulls(f.flat[j].at)}}],
      msgs |-> r.msgs, occ |-> r.occ, cap |-> Captured(r.st), shape |-> Shape(r.st, cx)]

(* lookup by id attribute: index of the displayed node, -1 when it is not    *)
(* displayed and -2 when there is none                                       *)
Lookup(f, byid, val, name) ==
  LET has == {i \in DOMAIN byid : LET at == AttrsOf(byid[i].bs, val) IN "id" \in DOMAIN at /\ at["id"] = name}
      shown == {i \in DOMAIN f.flat : f.flat[i].id \in has}
  IN [has |-> has, shown |-> shown]
=============================================================================
