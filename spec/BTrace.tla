------------------------------- MODULE BTrace -------------------------------
(* Trace validation: is what was recorded from the library, step by step, a  *)
(* behaviour of Bumaga? Scenarios (inputs) and traces (observations) are     *)
(* read from the files named in the environment. Every difference is printed *)
(* as a line of JSON behind "@@" with its category:                          *)
(*   fail  the library panicked, hung or returned an error                   *)
(*   tree text attr id style msgs cap shape  observations differ from Bumaga *)
(*   geo comp     geometry differs from BLayout                              *)
(*   twin         another view with the same inputs differs                  *)
(*   idle         an update of a settled view has changed something          *)
EXTENDS Bumaga, Json, IOUtils

Scens == ndJsonDeserialize(IOEnv.SCENS)
Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES sc, k, view, was, inst, byid    \* was: the view before the latest update

vars == <<sc, k, view, was, inst, byid>>
Key == <<sc, k>>     \* the state is a function of it


(* ---- comparison ---- *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)

NumberProps == {"opacity", "font-size", "font-weight", "flex-grow", "flex-shrink"}
PairProps == LPProps \cup WidthProps \cup LPAProps

StyleEq(p, a, b, tol) ==
  CASE p \in NumberProps -> Near(a, b, tol)
    \* an interpolated em is rounded before it is multiplied with the font size
    [] p \in PairProps -> a[1] = b[1] /\ Near(a[2], b[2], IF tol >= 20 THEN 4 * tol ELSE tol)
    [] p \in ColorProps -> NearSeq(a, b, Min(tol, 3))
    [] p = "backgrounds" ->
         Len(a) = Len(b) /\ \A i \in DOMAIN a : /\ a[i][1] = b[i][1] /\ NearSeq(a[i][2], b[i][2], Min(tol, 3))
                                                /\ Near(a[i][3], b[i][3], tol) /\ Near(a[i][4], b[i][4], tol)
    [] OTHER -> a = b

StyleDiff(exp, got, tol) ==
  {p \in DOMAIN exp \cup DOMAIN got :
     IF p \notin DOMAIN Defaults THEN TRUE
     ELSE ~StyleEq(p, IF p \in DOMAIN exp THEN exp[p] ELSE Defaults[p],
                      IF p \in DOMAIN got THEN got[p] ELSE Defaults[p], tol)}

AtFn(pairs) == [key \in {pairs[i][1] : i \in DOMAIN pairs} |->
                  pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = key][2]]

D(cat, node, exp, got) == [cat |-> cat, node |-> node, exp |-> exp, got |-> got]

RECURSIVE Concat(_)
Concat(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o Concat(Tail(x))
Collect(lists) == Concat(SelectSeq(lists, LAMBDA x : x # <<>>))

TreeDiff(f, o) ==
  LET shape(n) == [tag |-> n.tag, nk |-> n.nk, tx |-> n.k = "tx"]
      seen(n) == [tag |-> n.tag, nk |-> n.nk, tx |-> n.istx]
      exp == [i \in DOMAIN f.flat |-> shape(f.flat[i])]
      got == [i \in DOMAIN o.nodes |-> seen(o.nodes[i])]
  IN IF exp = got THEN <<>> ELSE <<D("tree", 0, exp, got)>>

NodeDiff(s, f, o, i) ==
  LET e == f.flat[i]
      g == o.nodes[i]
      texts == IF e.tx = g.tx THEN <<>> ELSE <<D("text", i, e.tx, g.tx)>>
      at == AtFn(g.at)
      attrs == IF at = e.at THEN <<>> ELSE <<D("attr", i, e.at, at)>>
      styles == IF "s" \notin DOMAIN g THEN <<>>
                ELSE LET exp == f.res[i].style
                         bad == StyleDiff(exp, g.s, s.tol)
                     IN IF bad = {} THEN <<>>
                        ELSE <<D("style", i, [p \in bad \cap DOMAIN exp |-> exp[p]],
                                             [p \in bad \cap DOMAIN g.s |-> g.s[p]])>>
  IN texts \o attrs \o styles

GeoDiff(s, f, o) ==
  IF o.nodes = <<>> \/ "l" \notin DOMAIN o.nodes[1] THEN <<>>
  ELSE LET ss == StylesOf(f)
           n == Len(f.flat)
           comp == Compose(f.flat, ss, [i \in 1..n |-> o.nodes[i].l], <<>>)
           rel(i) == LET c == comp[i]
                         g == o.nodes[i]
                         ok == /\ NearSeq(c.g, g.g, 2) /\ NearSeq(c.scr, g.scr, 2) /\ NearSeq(c.clip, g.clip, 2)
                               /\ Near(c.op, g.op, 6) /\ NearSeq(<<g.l[5], g.l[6]>>, g.c, 2)
                     IN IF ok THEN <<>>
                        ELSE <<D("comp", i, c, [g |-> g.g, scr |-> g.scr, op |-> g.op, clip |-> g.clip])>>
           broken == s.fonts = "wrap"
           laws == IF broken THEN WrapLaws(f.flat, ss, [i \in 1..n |-> o.nodes[i].l]) ELSE {}
           law(i) == LET bad == {w[1] : w \in {v \in laws : v[2] = i}}
                     IN IF bad = {} THEN <<>> ELSE <<D("geo", i, bad, o.nodes[i].l)>>
           exact == IF ~broken /\ Simple(f.flat, ss) THEN BoxesOf(f.flat, ss, <<>>) ELSE <<>>
           boxes == Rounded(f.flat, exact, <<>>)
           one(i) == LET b == <<boxes[i].x, boxes[i].y, boxes[i].w, boxes[i].h>>
                         e == Extent(f.flat, ss, exact, i)
                         edge == <<exact[i].x + e[1], exact[i].y + e[2]>>
                         inside == <<Round(edge[1]) - Round(exact[i].x), Round(edge[2]) - Round(exact[i].y)>>
                     IN (IF NearSeq(b, o.nodes[i].g, 2) THEN <<>> ELSE <<D("geo", i, b, o.nodes[i].g)>>)
                        \o (IF Close(edge[1]) \/ Close(edge[2]) \/ NearSeq(inside, o.nodes[i].c, 2) THEN <<>>
                            ELSE <<D("geo", i, <<"content", inside>>, <<"content", o.nodes[i].c>>)>>)
       IN Collect([i \in 1..n |-> rel(i) \o law(i)]) \o (IF exact = <<>> \/ ~Clear(boxes) THEN <<>> ELSE Collect([i \in 1..n |-> one(i)]))

(* a displayed element is found if there is one; copies which are not        *)
(* displayed any more keep the id which they had                             *)
IdDiff(s, f, st, o) ==
  LET displayed == {f.flat[i].id : i \in DOMAIN f.flat}
      stale(id) == \E p \in DOMAIN id : p % 2 = 0 /\ id[p] > 0 /\ SubSeq(id, 1, p) \notin displayed
      hasid(n) == \E b \in DOMAIN n.bs : n.bs[b].b = "attr" /\ n.bs[b].k = "id"
      gone == \E id \in DOMAIN byid : stale(id) /\ hasid(byid[id])
      one(j) == LET r == Lookup(f, byid, st.value, s.ids[j])
                    g == o.ids[j]
                    ok == CASE g = -2 -> \A id \in r.has : stale(id)
                            [] g = -1 -> r.shown = {} /\ (gone \/ r.has # {})
                            [] OTHER -> g + 1 \in r.shown
                IN IF ok THEN <<>> ELSE <<D("id", j, [id |-> s.ids[j], shown |-> r.shown], g)>>
  IN Collect([j \in DOMAIN o.ids |-> one(j)])

OutDiff(r, o) ==
  (IF r.msgs = o.msgs THEN <<>> ELSE <<D("msgs", 0, r.msgs, o.msgs)>>)
  \o (IF r.cap = o.cap THEN <<>> ELSE <<D("cap", 0, r.cap, o.cap)>>)
  \o (IF r.shape = o.ptr THEN <<>> ELSE <<D("shape", 0, r.shape, o.ptr)>>)

TwinDiff(s, o) ==
  IF "twin" \notin DOMAIN o THEN <<>>
  ELSE LET t == o.twin
           lost == {i \in DOMAIN o.nodes : i > Len(t.nodes) \/ o.nodes[i] # t.nodes[i]}
           first == CHOOSE i \in lost : \A j \in lost : i <= j
       IN (IF Len(t.nodes) # Len(o.nodes) THEN <<D("twin", 0, Len(t.nodes), Len(o.nodes))>>
           ELSE IF lost # {} THEN <<D("twin", first, t.nodes[first], o.nodes[first])>> ELSE <<>>)
          \o (IF s.twin = "again" /\ [m |-> t.msgs, c |-> t.cap, p |-> t.ptr, i |-> t.ids]
                                     # [m |-> o.msgs, c |-> o.cap, p |-> o.ptr, i |-> o.ids]
              THEN <<D("twin", 0, [m |-> t.msgs, c |-> t.cap, p |-> t.ptr, i |-> t.ids],
                                  [m |-> o.msgs, c |-> o.cap, p |-> o.ptr, i |-> o.ids])>> ELSE <<>>)

(* the same view got the same input as before *)
Idle(st, last, v, before) == st = last /\ st.dt = 0 /\ v = before
IdleDiff(o, l) ==
  LET seen(x) == [n |-> Len(x.nodes), m |-> x.msgs, c |-> x.cap, p |-> x.ptr, i |-> x.ids]
      bad == {i \in DOMAIN o.nodes : o.nodes[i] # l.nodes[i]}
      first == CHOOSE i \in bad : \A j \in bad : i <= j
  IN IF seen(o) # seen(l) THEN <<D("idle", 0, seen(l), seen(o))>>
     ELSE IF bad # {} THEN <<D("idle", first, l.nodes[first], o.nodes[first])>> ELSE <<>>

(* ---- behaviour ---- *)
Report(i, j, diffs) ==
  \A n \in DOMAIN diffs : PrintT("@@" \o ToJson([sc |-> Scens[i].id, step |-> j] @@ diffs[n]))

Init ==
  /\ sc \in DOMAIN Scens
  /\ k = 0
  /\ was = <<>>
  /\ LET s == Scens[sc] IN
     IF Traces[sc].load = "ok" /\ s.expect = "ok"
     THEN /\ inst = Instantiate(s.doc)
          /\ byid = ById(inst)
          /\ view = NewView
     ELSE /\ inst = <<>> /\ byid = <<>> /\ view = <<>>
          /\ IF Traces[sc].load = s.expect \/ (s.expect = "loads" /\ Traces[sc].load = "ok") \/ (s.expect = "any" /\ Traces[sc].load \in {"ok", "err"})
             THEN TRUE ELSE Report(sc, 0, <<D("fail", 0, s.expect, Traces[sc].load)>>)

Advance ==
  /\ k < Len(Traces[sc].steps)
  /\ view # <<>>
  /\ was' = view
  /\ LET s == Scens[sc]
         o == Traces[sc].steps[k + 1]
         st == s.steps[k + 1]
     IN IF o.out # "ok"
        THEN /\ Report(sc, k + 1, <<D("fail", 0, "ok", o.out)>>)
             /\ view' = <<>>
        ELSE \E f \in {Frame1(s.doc, inst, view, st)} :     \* (bound, so that TLC evaluates it once)
             \E tree \in {TreeDiff(f, o)} :
             IF tree # <<>>
             THEN /\ Report(sc, k + 1, tree \o TwinDiff(s, o))
                  /\ view' = <<>>
             ELSE \E r \in {Frame2(f, byid, view, st, o.ev, [i \in DOMAIN o.nodes |-> o.nodes[i].g])} :
                  LET l == IF k = 0 THEN <<>> ELSE Traces[sc].steps[k]
                      idle == IF k > 0 /\ o.ev = <<>> /\ l.ev = <<>> /\ Idle(st, s.steps[k], view, was)
                              THEN IdleDiff(o, l) ELSE <<>>
                      nd == [i \in DOMAIN o.nodes |-> NodeDiff(s, f, o, i)]
                  IN /\ Report(sc, k + 1, Collect(nd) \o GeoDiff(s, f, o)
                                          \o IdDiff(s, f, st, o) \o OutDiff(r, o) \o TwinDiff(s, o) \o idle)
                     /\ view' = r.view
  /\ k' = k + 1
  /\ UNCHANGED <<sc, inst, byid>>

(* scenarios of arbitrary text (expect = "any", or "loads": without error): nothing but failures matters *)
Opaque ==
  /\ k < Len(Traces[sc].steps)
  /\ view = <<>> /\ Scens[sc].expect \in {"any", "loads"}
  /\ LET o == Traces[sc].steps[k + 1]
     IN IF o.out # "ok" THEN Report(sc, k + 1, <<D("fail", 0, "ok", o.out)>>) ELSE TRUE
  /\ k' = k + 1
  /\ UNCHANGED <<sc, inst, byid, view, was>>

Next == Advance \/ Opaque
Spec == Init /\ [][Next]_vars
=============================================================================
