------------------------------- MODULE BAnim -------------------------------
(* Animations and transitions of one element. Time is in ticks of any length.*)
(*                                                                           *)
(* animator:   [name, dur, delay, iters (thousandths, -1 is infinite), run, time]    *)
(* transition: [key, dur, delay, ranges (Seq(<<from, to>>)), time]           *)
EXTENDS BCascade

NewAnimator == [name |-> "", dur |-> 0, delay |-> 0, iters |-> 1000, run |-> TRUE, time |-> 0]
NewTransition == [key |-> "", dur |-> 0, delay |-> 0, ranges |-> <<>>, time |-> 0]

(* the value at num/den of the way from a to b *)
Mix(x, y, num, den) == x + ((y - x) * num) \div den

Animate(a, b, num, den) ==
  CASE num = 0 -> a
    [] num = den -> b
    [] a.t = b.t /\ a.t \in Dims \cup {"num", "pct"} -> [t |-> a.t, n |-> Mix(a.n, b.n, num, den)]
    [] a.t = "zero" /\ b.t \in Dims \cup {"num", "pct"} -> [t |-> b.t, n |-> Mix(0, b.n, num, den)]
    [] b.t = "zero" /\ a.t \in Dims \cup {"num", "pct"} -> [t |-> a.t, n |-> Mix(a.n, 0, num, den)]
    [] a.t = "col" /\ b.t = "col" -> [t |-> "col", c |-> [i \in 1..4 |-> Mix(a.c[i], b.c[i], num, den)]]
    [] OTHER -> IF 2 * num < den THEN a ELSE b

(* elapsed part of the current iteration as <<num, den>>, <<>> when there is no effect *)
Progress(an) ==
  IF an.dur <= 0 THEN <<>>
  ELSE LET t0 == an.time - an.delay
           \* (a million is large enough for what TLC can multiply)
           t1 == IF an.iters < 0 THEN t0
                 ELSE Min(t0, IF an.iters > 1000000 THEN (an.iters \div 1000) * an.dur ELSE (an.iters * an.dur) \div 1000)
           t2 == IF t1 > an.dur THEN t1 - an.dur * ((t1 - 1) \div an.dur) ELSE t1
       IN IF t0 < 0 THEN <<>> ELSE <<t2, an.dur>>

(* ---- keyframes ---- *)
Initial(p) ==
  CASE p = "opacity" -> [t |-> "num", n |-> 1000]
    [] p = "background-color" -> [t |-> "col", c |-> <<0, 0, 0, 0>>]
    [] p = "color" -> Kw("currentColor")
    [] p = "font-size" -> [t |-> "px", n |-> 16000]
    [] p = "flex-shrink" -> [t |-> "num", n |-> 1000]
    [] p \in {"border-top-color", "border-right-color", "border-bottom-color", "border-left-color"} -> Kw("currentColor")
    [] p \in {"border-top-width", "border-right-width", "border-bottom-width", "border-left-width"} -> Kw("medium")
    [] p \in {"background-position-x", "background-position-y"} -> [t |-> "pct", n |-> 0]
    [] p \in {"width", "height", "left", "top", "right", "bottom", "min-width", "min-height", "flex-basis"} -> Kw("auto")
    [] p \in {"column-gap", "row-gap", "align-content", "align-items", "justify-content"} -> Kw("normal")
    [] p \in {"background-image", "max-width", "max-height"} -> Kw("none")
    [] p \in {"cursor", "align-self", "justify-self", "pointer-events"} -> Kw("auto")
    [] p \in {"visibility", "overflow-x", "overflow-y"} -> Kw("visible")
    [] p = "text-align" -> Kw("start")
    [] OTHER -> Zero

RECURSIVE FrameStyle(_, _, _)
FrameStyle(ds, vars, cs) ==
  IF ds = <<>> THEN cs ELSE FrameStyle(Tail(ds), vars, Layers(Head(ds), vars, 1, cs))

(* steps of an animation: function from percent to computed style *)
RECURSIVE Steps(_, _, _)
Steps(frames, vars, acc) ==
  IF frames = <<>> THEN acc
  ELSE Steps(Tail(frames), vars, (Head(frames).step :> FrameStyle(Head(frames).ds, vars, <<>>)) @@ acc)

At100(f, s) == IF s \in DOMAIN f THEN f[s] ELSE <<>>

PlayKeyframes(frames, vars, cs, progress) ==
  LET steps == Steps(frames, vars, <<>>)
      props == UNION {DOMAIN steps[s] : s \in DOMAIN steps}
      fill(s) == At100(steps, s) @@ [p \in props |-> IF p \in DOMAIN cs THEN cs[p] ELSE Initial(p[1])]
      full == (0 :> fill(0)) @@ (100 :> fill(100)) @@ steps
      t == (100 * progress[1]) \div progress[2]
      of(p) == LET has == {s \in DOMAIN full : p \in DOMAIN full[s]}
                   below == {s \in has : s <= t}
                   above == {s \in has : s >= t}
                   a == CHOOSE s \in below : \A r \in below : r <= s
                   b == CHOOSE s \in above : \A r \in above : s <= r
               IN IF b > a THEN Animate(full[a][p], full[b][p], t - a, b - a) ELSE full[a][p]
  IN IF props = {} THEN cs ELSE [p \in props |-> of(p)] @@ cs

(* all animators of an element over its computed style *)
RECURSIVE PlayAnimators(_, _, _, _, _, _)
PlayAnimators(ans, dt, anims, vars, cs, done) ==
  IF ans = <<>> THEN [an |-> done, cs |-> cs]
  ELSE LET an == Head(ans)
           known == an.name \in DOMAIN anims
           next == IF known /\ an.dur > 0 /\ an.run THEN [an EXCEPT !.time = @ + dt] ELSE an
           pr == Progress(next)
       IN PlayAnimators(Tail(ans), dt, anims, vars,
                        IF known /\ pr # <<>> THEN PlayKeyframes(anims[an.name], vars, cs, pr) ELSE cs,
                        Append(done, next))

(* ---- transitions ---- *)
RECURSIVE PlayRanges(_, _, _, _, _)
PlayRanges(tr, pr, i, cs, acc) ==   \* acc = [cs, ranges, changed]
  IF i > Len(tr.ranges) \/ <<tr.key, i - 1>> \notin DOMAIN cs THEN acc
  ELSE LET value == cs[<<tr.key, i - 1>>]
           current == Animate(tr.ranges[i][1], tr.ranges[i][2], pr[1], pr[2])
       IN PlayRanges(tr, pr, i + 1, cs,
            [cs |-> (<<tr.key, i - 1>> :> current) @@ acc.cs,
             ranges |-> Append(acc.ranges, <<current, value>>),
             changed |-> acc.changed \/ tr.ranges[i][2] # value])

PlayTransition(tr, dt, cs) ==
  IF tr.key = "" THEN [tr |-> tr, cs |-> cs]
  ELSE IF tr.dur <= 0 THEN [tr |-> [tr EXCEPT !.ranges = <<>>], cs |-> cs]
  ELSE LET next == [tr EXCEPT !.time = @ + dt]
           t == next.time - next.delay
           pr == IF t < 0 THEN <<0, 1>> ELSE <<Min(t, next.dur), next.dur>>
           r == PlayRanges(next, pr, 1, cs, [cs |-> cs, ranges |-> <<>>, changed |-> FALSE])
       IN [cs |-> r.cs,
           \* a value which is not declared any more appears again without transition
           tr |-> IF r.changed THEN [next EXCEPT !.ranges = r.ranges, !.time = 0]
                  ELSE [next EXCEPT !.ranges = SubSeq(@, 1, Len(r.ranges))]]

RECURSIVE PlayTransitions(_, _, _, _)
PlayTransitions(trs, dt, cs, done) ==
  IF trs = <<>> THEN [tr |-> done, cs |-> cs]
  ELSE LET r == PlayTransition(Head(trs), dt, cs)
       IN PlayTransitions(Tail(trs), dt, r.cs, Append(done, r.tr))

(* ---- parameters for the next frame ---- *)
RECURSIVE Count(_, _, _)
Count(cs, p, i) == IF <<p, i>> \in DOMAIN cs THEN Count(cs, p, i + 1) ELSE i

TimeAt(cs, p, i, d) == IF <<p, i>> \in DOMAIN cs /\ cs[<<p, i>>].t = "time" THEN cs[<<p, i>>].n ELSE d
KwAt(cs, p, i, d) == IF <<p, i>> \in DOMAIN cs /\ cs[<<p, i>>].t = "kw" THEN cs[<<p, i>>].s ELSE d

NextAnimators(old, cs) ==
  [i \in 1..Count(cs, "animation-name", 0) |->
     LET was == IF i <= Len(old) THEN old[i] ELSE NewAnimator
         name == KwAt(cs, "animation-name", i - 1, was.name)
         it == IF <<"animation-iteration-count", i - 1>> \in DOMAIN cs
               THEN cs[<<"animation-iteration-count", i - 1>>] ELSE Err
         play == KwAt(cs, "animation-play-state", i - 1, "running")
     IN [name |-> name, time |-> IF name = was.name THEN was.time ELSE 0,
         dur |-> TimeAt(cs, "animation-duration", i - 1, 0),
         delay |-> TimeAt(cs, "animation-delay", i - 1, 0),
         iters |-> IF it.t = "num" THEN it.n
                   ELSE IF it = Kw("infinite") THEN -1 ELSE 1000,
         run |-> play # "paused"]]

RECURSIVE InitRanges(_, _)
InitRanges(tr, cs) ==
  LET k == <<tr.key, Len(tr.ranges)>>
  IN IF tr.key = "" \/ k \notin DOMAIN cs THEN tr
     ELSE InitRanges([tr EXCEPT !.ranges = Append(@, <<cs[k], cs[k]>>)], cs)

NextTransitions(old, cs) ==
  [i \in 1..Count(cs, "transition-property", 0) |->
     LET was == IF i <= Len(old) THEN old[i] ELSE NewTransition
         key == KwAt(cs, "transition-property", i - 1, was.key)
         base == IF key = was.key THEN was ELSE [was EXCEPT !.key = key, !.ranges = <<>>, !.time = 0]
     IN InitRanges([base EXCEPT !.dur = TimeAt(cs, "transition-duration", i - 1, 0),
                                !.delay = TimeAt(cs, "transition-delay", i - 1, 0)], cs)]

NoMotion == [an |-> <<>>, tr |-> <<>>]

(* one frame of an element: cascaded style to displayed style and motion *)
Frame(m, cs, vars, anims, dt) ==
  LET a == PlayAnimators(m.an, dt, anims, vars, cs, <<>>)
      b == PlayTransitions(m.tr, dt, a.cs, <<>>)
  IN [cs |-> b.cs,
      m |-> [an |-> NextAnimators(a.an, b.cs), tr |-> NextTransitions(b.tr, b.cs)]]
=============================================================================
