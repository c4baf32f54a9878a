------------------------------- MODULE MCAnim -------------------------------
(* Animations with every combination of duration, delay, number of           *)
(* iterations and shape of keyframes, while they are declared, paused, taken *)
(* away and replaced by another in every order, with small and great steps   *)
(* of time (C20). The invariants restate what is displayed from the elapsed  *)
(* time of a stopwatch per animation.                                        *)
EXTENDS MCDoc

F(s, ds) == [step |-> s, ds |-> ds]
BgD(c1, c2) == [p |-> "background-color", v |-> <<<<c1>>, <<c2>>>>]
PctT(n) == [t |-> "pct", n |-> n * 10]
Red == ColT(200, 0, 0)
Blue == ColT(0, 0, 200)
Grey == ColT(100, 100, 100)
Anims ==
  ("ka" :> <<F(0, <<Decl("opacity", <<NumT(0)>>)>>), F(100, <<Decl("opacity", <<NumT(1000)>>)>>)>>)
  @@ ("kb" :> <<F(50, <<Decl("opacity", <<NumT(100)>>)>>)>>)
  @@ ("kc" :> <<F(75, <<Decl("width", <<PxT(50)>>)>>), F(25, <<Decl("width", <<PxT(10)>>)>>)>>)
  @@ ("kd" :> <<F(0, <<BgD(Red, Blue)>>)>>)
  @@ ("ke" :> <<F(0, <<Decl("opacity", <<NumT(1000)>>)>>), F(30, <<Decl("opacity", <<NumT(200)>>)>>),
                F(100, <<Decl("visibility", <<Kw("hidden")>>)>>)>>)
  @@ ("kf" :> <<F(0, <<Decl("margin-left", <<Zero>>)>>), F(50, <<Decl("padding-top", <<PctT(50)>>)>>), F(100, <<Decl("margin-left", <<PxT(20)>>)>>)>>)
KfName(n) == <<"ka", "kb", "kc", "kd", "ke", "kf">>[n]
Names(kf) == IF kf = 7 THEN <<"ka", "kc">> ELSE <<KfName(kf)>>
Other(kf) == <<KfName(1 + (kf % 6))>>
OwnDs == <<Decl("opacity", <<NumT(500)>>), Decl("width", <<PxT(100)>>), BgD(Grey, Blue), Decl("margin-left", <<PxT(8)>>), Decl("padding-top", <<PctT(10)>>)>>

Durs == <<1, 4, 9>>
Delays == <<0, 3, -1>>
Iters == <<1, 2, -1>>
Count_ == 189
Param(n) == [dur |-> Durs[1 + (n % 3)], delay |-> Delays[1 + ((n \div 3) % 3)], iters |-> Iters[1 + ((n \div 9) % 3)],
             kf |-> 1 + ((n \div 27) % 7), own |-> (n \div 3) % 4 \in {0, 3}]
Per == 21
Elems(d) == [i \in 1..Per |-> Param((d - 1) + (i - 1) * (Count_ \div Per))]

Lst(p, xs) == [p |-> p, v |-> [i \in DOMAIN xs |-> <<xs[i]>>]]
Kws(ns) == [i \in DOMAIN ns |-> Kw(ns[i])]
Two(n, x) == IF n = 2 THEN <<x, x>> ELSE <<x>>
IterT(n) == IF n < 0 THEN Kw("infinite") ELSE NumT(n * 1000)
RulesFor(i, e) ==
  LET c == "x" \o ToString(i)
      n == Len(Names(e.kf))
  IN << Rule(<<One(<<Cls(c), Cls("on")>>)>>,
             <<Lst("animation-name", Kws(Names(e.kf))), Lst("animation-duration", Two(n, TimeT(e.dur))),
               Lst("animation-delay", Two(n, TimeT(e.delay))), Lst("animation-iteration-count", Two(n, IterT(e.iters)))>>),
        Rule(<<One(<<Cls(c), Cls("other")>>)>>, <<Lst("animation-name", Kws(Other(e.kf)))>>) >>
DocOf(d) ==
  LET es == Elems(d)
  IN [Doc(Body([i \in DOMAIN es |-> El("i", <<Bd("class", <<Lit("x" \o ToString(i) \o (IF es[i].own THEN " own " ELSE " ")), Sp(<<"c">>)>>)>>, <<>>)]),
          <<Rule(<<One(<<Cls("own")>>)>>, OwnDs)>> \o Flatten([i \in DOMAIN es |-> RulesFor(i, es[i])])
          \o <<Rule(<<One(<<Cls("paused")>>)>>, <<Lst("animation-play-state", <<Kw("paused"), Kw("paused")>>)>>)>>)
      EXCEPT !.anims = Anims]

(* symbols: what is declared, and the time since the latest update *)
Class(y) == CASE y % 4 = 1 -> "on" [] y % 4 = 2 -> "on paused" [] y % 4 = 3 -> "on other" [] OTHER -> ""
Dt(y) == IF y \div 4 = 0 THEN 1 ELSE 6
(* every symbol after every two (after every one in the quick tier) *)
Seq2 == LET t == Tour(8) IN [i \in DOMAIN t |-> t[i] - 1]
Seq3 == Flatten([i \in 1..512 |-> <<(i - 1) % 8, ((i - 1) \div 8) % 8, ((i - 1) \div 64) % 8>>])
Word == <<>> \o (IF Thorough THEN Seq3 ELSE Seq2)
StepAt(y) == St(Obj(<< <<"c", Str(Class(y))>> >>), Dt(y), <<>>)

VARIABLES d, k, word, doc, inst, motion, mon, seen
vars == <<d, k, word, doc, inst, motion, mon, seen>>
Key == <<d, k>>

DeclaredBy(y, e) == CASE y % 4 = 0 -> <<>> [] y % 4 = 3 -> Other(e.kf) [] OTHER -> Names(e.kf)
(* stopwatches: what runs was declared in the frame before *)
Tick(m, dt) == [i \in DOMAIN m |-> [m[i] EXCEPT !.t = @ + (IF m[i].run THEN dt ELSE 0)]]
Redeclare(m, y, e) ==
  LET ns == DeclaredBy(y, e)
  IN [i \in DOMAIN ns |-> [name |-> ns[i], run |-> y % 4 # 2, t |-> IF i <= Len(m) /\ m[i].name = ns[i] THEN m[i].t ELSE 0]]

Init == /\ d \in 1..(Count_ \div Per) /\ k = 0 /\ word = Word
        /\ doc = DocOf(d) /\ inst = Instantiate(doc) /\ motion = <<>>
        /\ mon = [i \in 1..Per |-> <<>>] /\ seen = <<>>
        /\ Emit_(doc, [i \in DOMAIN word |-> StepAt(word[i])])
NoPs == [hov |-> {}, act |-> {}, foc |-> {}]
Next == /\ k < Len(word) /\ k' = k + 1 /\ UNCHANGED <<d, word, doc, inst>>
        /\ \E st \in {StepAt(word[k + 1])} :
           \E f \in {Frame1(doc, inst, [NewView EXCEPT !.motion = motion], st)} :
             /\ motion' = NextMotion(motion, f.res)
             /\ \E es \in {Elems(d)} : \E ticked \in {<<>> \o [i \in 1..Per |-> Tick(mon[i], st.dt)]} :
                  /\ seen' = <<>> \o [i \in 1..Per |-> [st |-> f.res[i + 1].style, m |-> ticked[i], e |-> es[i]]]
                  /\ mon' = <<>> \o [i \in 1..Per |-> Redeclare(ticked[i], word[k + 1], es[i])]

(* ---- what is displayed after so much time ---- *)
Keys == {<<"opacity", 0>>, <<"width", 0>>, <<"background-color", 0>>, <<"background-color", 1>>, <<"visibility", 0>>, <<"margin-left", 0>>, <<"padding-top", 0>>}
At_step(name, key) == {n \in DOMAIN Anims[name] : Anims[name][n].ds[1].p = key[1] /\ key[2] < Len(Anims[name][n].ds[1].v)}
Tok(name, n, key) == Anims[name][n].ds[1].v[key[2] + 1][1]
OwnTok(e, key) ==
  LET has == {n \in DOMAIN OwnDs : OwnDs[n].p = key[1] /\ key[2] < Len(OwnDs[n].v)}
  IN IF e.own /\ has # {} THEN OwnDs[CHOOSE n \in has : TRUE].v[key[2] + 1][1]
     ELSE CASE key[1] = "opacity" -> NumT(1000) [] key[1] = "visibility" -> Kw("visible") [] key[1] = "width" -> Kw("auto")
            [] key[1] = "background-color" -> [t |-> "col", c |-> <<0, 0, 0, 0>>] [] OTHER -> Zero
Track(e, name, key) ==     \* from percent to token, with both ends
  LET ns == At_step(name, key)
      ss == {Anims[name][n].step : n \in ns}
  IN [s \in ss \cup {0, 100} |-> IF s \in ss THEN Tok(name, CHOOSE n \in ns : Anims[name][n].step = s, key) ELSE OwnTok(e, key)]
Percent(e, t) ==      \* t: since the delay
  LET all == IF e.iters < 0 THEN t ELSE Min(t, e.iters * e.dur)
      part == IF all = 0 THEN 0 ELSE 1 + ((all - 1) % e.dur)
  IN (100 * part) \div e.dur
Between(a, b, n, m) ==    \* tokens n/m of the way
  LET mix(x, y) == x + ((y - x) * n) \div m
  IN IF n = 0 THEN a ELSE IF n = m THEN b
     ELSE IF a.t = "col" THEN [t |-> "col", c |-> [i \in 1..4 |-> mix(a.c[i], b.c[i])]]
     ELSE IF a.t = "kw" \/ b.t = "kw" THEN IF 2 * n < m THEN a ELSE b
     ELSE LET x == IF a.t = "zero" THEN 0 ELSE a.n
              y == IF b.t = "zero" THEN 0 ELSE b.n
          IN [t |-> IF a.t = "zero" THEN b.t ELSE a.t, n |-> mix(x, y)]
Value(track, pc) ==
  LET lo == CHOOSE s \in DOMAIN track : s <= pc /\ \A r \in DOMAIN track : r <= pc => r <= s
      hi == CHOOSE s \in DOMAIN track : s >= pc /\ \A r \in DOMAIN track : r >= pc => s <= r
  IN IF lo = hi THEN track[lo] ELSE Between(track[lo], track[hi], pc - lo, hi - lo)
Effects(x, key) == {i \in DOMAIN x.m : x.m[i].t >= x.e.delay /\ At_step(x.m[i].name, key) # {}}
Expected(x, key) ==
  LET on == Effects(x, key)
  IN IF on = {} THEN OwnTok(x.e, key)
     ELSE LET i == CHOOSE i \in on : \A j \in on : j <= i
          IN Value(Track(x.e, x.m[i].name, key), Percent(x.e, x.m[i].t - x.e.delay))
IsShown(st, key, tk) ==
  CASE key[1] = "opacity" -> Sty(st, "opacity") = tk.n
    [] key[1] = "visibility" -> Sty(st, "visibility") = tk.s
    [] key[1] = "background-color" -> LET bg == Sty(st, "backgrounds")
                                      IN IF key[2] + 1 > Len(bg) THEN tk.c[4] = 0 ELSE bg[key[2] + 1][2] = tk.c
    [] OTHER -> Sty(st, key[1]) = (IF tk.t = "kw" THEN <<"auto", 0>> ELSE IF tk.t = "zero" THEN <<"len", 0>>
                                   ELSE IF tk.t = "pct" THEN <<"pct", tk.n>> ELSE <<"len", tk.n>>)
Follows == \A i \in DOMAIN seen : \A key \in Keys : IsShown(seen[i].st, key, Expected(seen[i], key))
(* some consequences, without any arithmetic of keyframes *)
Ends == \A i \in DOMAIN seen : LET x == seen[i] IN
          x.e.kf = 1 /\ Len(x.m) = 1 /\ x.m[1].name = "ka" =>
            /\ x.m[1].t < x.e.delay => Sty(x.st, "opacity") = IF x.e.own THEN 500 ELSE 1000
            /\ x.m[1].t = x.e.delay => Sty(x.st, "opacity") = 0
            /\ x.e.iters > 0 /\ x.m[1].t >= x.e.delay + x.e.iters * x.e.dur => Sty(x.st, "opacity") = 1000
Undeclared == \A i \in DOMAIN seen : seen[i].m = <<>> => \A key \in Keys : IsShown(seen[i].st, key, OwnTok(seen[i].e, key))
=============================================================================
