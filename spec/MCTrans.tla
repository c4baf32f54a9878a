------------------------------- MODULE MCTrans -------------------------------
(* Transitions of several properties, durations and delays while the value   *)
(* changes, changes back, disappears and appears in every order and at every *)
(* moment of a running transition (C21). The invariants restate what is      *)
(* displayed with a stopwatch and the value displayed at the latest change.  *)
EXTENDS MCDoc

PctT(n) == [t |-> "pct", n |-> n * 10]
BgD(c1, c2) == [p |-> "background-color", v |-> <<<<c1>>, <<c2>>>>]
Props == <<"opacity", "width", "padding-top", "margin-left", "background-color", "visibility">>
(* three values for every property, one of them can be of another kind *)
Vals(p) ==
  CASE p = "opacity" -> <<Decl(p, <<NumT(0)>>), Decl(p, <<NumT(800)>>), Decl(p, <<NumT(500)>>)>>
    [] p = "width" -> <<Decl(p, <<PxT(10)>>), Decl(p, <<PxT(90)>>), Decl(p, <<PctT(50)>>)>>
    [] p = "padding-top" -> <<Decl(p, <<Zero>>), Decl(p, <<PctT(40)>>), Decl(p, <<PxT(20)>>)>>
    [] p = "margin-left" -> <<Decl(p, <<PxT(-10)>>), Decl(p, <<Zero>>), Decl(p, <<Kw("auto")>>)>>
    [] p = "background-color" -> <<BgD(ColT(0, 100, 200), ColT(10, 10, 10)), BgD(ColT(200, 0, 100), ColT(10, 10, 10)), BgD(ColT(7, 7, 7), ColT(90, 0, 0))>>
    [] p = "visibility" -> <<Decl(p, <<Kw("visible")>>), Decl(p, <<Kw("hidden")>>), Decl(p, <<Kw("visible")>>)>>
Durs == <<0, 1, 4>>
Delays == <<0, 2, -1>>
Count_ == 54
Param(n) == [p |-> Props[1 + (n % 6)], dur |-> Durs[1 + ((n \div 6) % 3)], delay |-> Delays[1 + ((n \div 18) % 3)]]
Per == 18
Elems(g) == [i \in 1..Per |-> Param((g - 1) * Per + i - 1)]
RulesFor(i, e) ==
  LET c == Cls("x" \o ToString(i))
  IN <<Rule(<<One(<<c>>)>>, <<Decl("transition-property", <<Kw(e.p)>>), Decl("transition-duration", <<TimeT(e.dur)>>), Decl("transition-delay", <<TimeT(e.delay)>>)>>)>>
     \o [n \in 1..3 |-> Rule(<<One(<<c, Cls("v" \o ToString(n))>>)>>, <<Vals(e.p)[n]>>)]
DocOf(g) ==
  LET es == Elems(g)
  IN Doc(Body([i \in DOMAIN es |-> El("i", <<Bd("class", <<Lit("x" \o ToString(i) \o " "), Sp(<<"c">>)>>)>>, <<>>)]),
         Flatten([i \in DOMAIN es |-> RulesFor(i, es[i])]))

(* symbols: which value is declared (0: none) and the time since the latest update *)
Dt(y) == IF y \div 4 = 0 THEN 1 ELSE 3
Seq2 == LET t == Tour(8) IN [i \in DOMAIN t |-> t[i] - 1]
Seq3 == Flatten([i \in 1..512 |-> <<(i - 1) % 8, ((i - 1) \div 8) % 8, ((i - 1) \div 64) % 8>>])
Word == <<>> \o (IF Thorough THEN Seq3 ELSE Seq2)
StepAt(y) == St(Obj(<< <<"c", Str(IF y % 4 = 0 THEN "" ELSE "v" \o ToString(y % 4))>> >>), Dt(y), <<>>)

VARIABLES g, k, word, doc, inst, motion, mon, seen
vars == <<g, k, word, doc, inst, motion, mon, seen>>
Key == <<g, k>>

(* declared tokens of the layers of the property *)
Want(e, y) == IF y % 4 = 0 THEN <<>> ELSE LET v == Vals(e.p)[y % 4].v IN [i \in DOMAIN v |-> v[i][1]]
Amount(tk, like) == IF tk.t = "zero" THEN [t |-> like, n |-> 0] ELSE [t |-> tk.t, n |-> tk.n]
(* between two tokens *)
Between(a, b, n, m) ==
  IF n = 0 THEN a ELSE IF n = m THEN b
  ELSE IF a.t = "col" THEN [t |-> "col", c |-> [i \in 1..4 |-> a.c[i] + ((b.c[i] - a.c[i]) * n) \div m]]
  ELSE LET kind(t) == IF t.t = "zero" THEN {"px", "pct", "num"} ELSE {t.t} \cap {"px", "pct", "num"}
           both == kind(a) \cap kind(b)
       IN IF both = {} \/ (a.t = "zero" /\ b.t = "zero") THEN IF 2 * n < m THEN a ELSE b
          ELSE LET t == IF a.t = "zero" THEN b.t ELSE a.t
               IN [t |-> t, n |-> Amount(a, t).n + ((Amount(b, t).n - Amount(a, t).n) * n) \div m]
(* a monitor: <<>> when the property was not declared or not transitioned in  *)
(* the frame before, else [from, to, t] (from and to for every layer)         *)
Displayed(m, e) ==
  LET t == Max(0, Min(m.t - e.delay, e.dur))
  IN [i \in DOMAIN m.to |-> Between(m.from[i], m.to[i], t, e.dur)]
Frame_(m, e, want, dt) ==    \* <<what is displayed, monitor>>
  IF want = <<>> THEN <<<<>>, <<>>>>
  ELSE IF m = <<>> \/ e.dur = 0 THEN <<want, [from |-> want, to |-> want, t |-> 0]>>
  ELSE LET on == [m EXCEPT !.t = @ + dt]
           now == Displayed(on, e)
       IN <<now, IF want = m.to THEN on ELSE [from |-> now, to |-> want, t |-> 0]>>

Init == /\ g \in 1..(Count_ \div Per) /\ k = 0 /\ word = Word
        /\ doc = DocOf(g) /\ inst = Instantiate(doc) /\ motion = <<>>
        /\ mon = [i \in 1..Per |-> <<>>] /\ seen = <<>>
        /\ Emit_(doc, [i \in DOMAIN word |-> StepAt(word[i])])
Next == /\ k < Len(word) /\ k' = k + 1 /\ UNCHANGED <<g, word, doc, inst>>
        /\ \E st \in {StepAt(word[k + 1])} :
           \E f \in {Frame1(doc, inst, [NewView EXCEPT !.motion = motion], st)} :
             /\ motion' = NextMotion(motion, f.res)
             /\ \E es \in {Elems(g)} :
                \E r \in {<<>> \o [i \in 1..Per |-> Frame_(mon[i], es[i], Want(es[i], word[k + 1]), st.dt)]} :
                  /\ seen' = <<>> \o [i \in 1..Per |-> [st |-> f.res[i + 1].style, now |-> r[i][1], want |-> Want(es[i], word[k + 1]),
                                                        e |-> es[i], was |-> mon[i], m |-> r[i][2]]]
                  /\ mon' = <<>> \o [i \in 1..Per |-> r[i][2]]

IsShown(st, p, i, tk) ==
  CASE p = "opacity" -> Sty(st, p) = tk.n
    [] p = "visibility" -> Sty(st, p) = tk.s
    [] p = "background-color" -> i <= Len(Sty(st, "backgrounds")) /\ Sty(st, "backgrounds")[i][2] = tk.c
    [] OTHER -> Sty(st, p) = (IF tk.t = "kw" THEN <<"auto", 0>> ELSE IF tk.t = "zero" THEN <<"len", 0>>
                              ELSE IF tk.t = "pct" THEN <<"pct", tk.n>> ELSE <<"len", tk.n>>)
Follows == \A i \in DOMAIN seen : LET x == seen[i] IN
   IF x.now = <<>> THEN (IF x.e.p = "background-color" THEN "backgrounds" ELSE x.e.p) \notin DOMAIN x.st
   ELSE \A n \in DOMAIN x.now : IsShown(x.st, x.e.p, n, x.now[n])
(* consequences, without any arithmetic *)
Held(x) == x.was # <<>> /\ x.m # <<>> /\ x.e.dur > 0
Holds == \A i \in DOMAIN seen : LET x == seen[i] IN      \* nothing moves within the delay
   Held(x) /\ x.m.t # 0 /\ x.m.t <= x.e.delay => \A n \in DOMAIN x.now : IsShown(x.st, x.e.p, n, x.m.from[n])
Arrives == \A i \in DOMAIN seen : LET x == seen[i] IN
   x.want # <<>> /\ (x.e.dur = 0 \/ (Held(x) /\ x.m.t > 0 /\ x.m.t >= x.e.delay + x.e.dur) \/ x.was = <<>>)
     => \A n \in DOMAIN x.want : IsShown(x.st, x.e.p, n, x.want[n])
Inside == \A i \in DOMAIN seen : LET x == seen[i] IN
   Held(x) /\ x.e.p = "opacity" => LET v == Sty(x.st, "opacity")
                                       a == x.was.from[1].n
                                       b == x.was.to[1].n
                                   IN v >= Min(a, b) /\ v <= Max(a, b)
=============================================================================
