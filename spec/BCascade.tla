------------------------------ MODULE BCascade ------------------------------
(* The cascade: declarations to longhands, variables, inheritance, units.    *)
(* Quantities are integers in thousandths; declared values are tokens:       *)
(*   [t |-> "px"|"em"|"rem"|"vw"|"vh"|"vmin"|"vmax"|"pct"|"num", n |-> Int]   *)
(*   [t |-> "zero"] [t |-> "kw", s |-> ..] [t |-> "str", s |-> ..]            *)
(*   [t |-> "col", c |-> <<r,g,b,a>>] [t |-> "time", n |-> eighths of second] *)
(*   [t |-> "var", s |-> name] [t |-> "url", s |-> ..] [t |-> "err"]          *)
(* A declaration is [p |-> property or --name, v |-> Seq(layer)], a layer is *)
(* a sequence of tokens.                                                     *)
EXTENDS BSelect, FiniteSets

Zero == [t |-> "zero"]
Err == [t |-> "err"]
Kw(s) == [t |-> "kw", s |-> s]
Dims == {"px", "em", "rem", "vw", "vh", "vmin", "vmax"}

(* ---- shorthands ---- *)
Sides == <<"top", "right", "bottom", "left">>
Corners == <<"top-left", "top-right", "bottom-right", "bottom-left">>

Four(ts) == CASE Len(ts) = 1 -> <<ts[1], ts[1], ts[1], ts[1]>>
              [] Len(ts) = 2 -> <<ts[1], ts[2], ts[1], ts[2]>>
              [] Len(ts) = 3 -> <<ts[1], ts[2], ts[3], ts[2]>>
              [] Len(ts) = 4 -> ts

BoxProp == ("margin" :> <<"margin-top", "margin-right", "margin-bottom", "margin-left">>)
  @@ ("padding" :> <<"padding-top", "padding-right", "padding-bottom", "padding-left">>)
  @@ ("border-width" :> <<"border-top-width", "border-right-width", "border-bottom-width", "border-left-width">>)
  @@ ("border-color" :> <<"border-top-color", "border-right-color", "border-bottom-color", "border-left-color">>)
  @@ ("border-radius" :> <<"border-top-left-radius", "border-top-right-radius",
                           "border-bottom-right-radius", "border-bottom-left-radius">>)

Zip(ps, ts) == [i \in DOMAIN ps |-> <<ps[i], ts[i]>>]
BorderSide(side, w, c) == << <<"border-" \o side \o "-width", w>>, <<"border-" \o side \o "-color", c>> >>
BorderAll(w, c) == BorderSide("top", w, c) \o BorderSide("right", w, c)
                   \o BorderSide("bottom", w, c) \o BorderSide("left", w, c)
BorderSideProps == ("border-top" :> "top") @@ ("border-right" :> "right")
                   @@ ("border-bottom" :> "bottom") @@ ("border-left" :> "left")

(* longhands (with tokens) of one layer of a declaration *)
Longhands(p, ts) ==
  LET n == Len(ts) IN
  CASE p \in DOMAIN BoxProp -> IF n \in 1..4 THEN Zip(BoxProp[p], Four(ts)) ELSE <<>>
    [] p = "background" -> IF n = 1 THEN << <<"background-image", Kw("none")>>, <<"background-color", ts[1]>> >> ELSE <<>>
    [] p = "background-position" ->
         IF n \in 1..2 THEN << <<"background-position-x", ts[1]>>, <<"background-position-y", ts[n]>> >> ELSE <<>>
    [] p = "border" -> IF n = 3 THEN BorderAll(ts[1], ts[3])
                       ELSE IF n = 1 /\ ts[1] = Kw("none") THEN BorderAll(Zero, Kw("currentcolor")) ELSE <<>>
    [] p \in DOMAIN BorderSideProps -> IF n = 3 THEN BorderSide(BorderSideProps[p], ts[1], ts[3]) ELSE <<>>
    [] p = "overflow" -> IF n \in 1..2 THEN << <<"overflow-x", ts[1]>>, <<"overflow-y", ts[n]>> >> ELSE <<>>
    [] p = "inset" -> IF n \in {1, 4} THEN Zip(Sides, Four(ts)) ELSE <<>>
    [] p = "gap" -> IF n \in 1..2 THEN << <<"row-gap", ts[1]>>, <<"column-gap", ts[n]>> >> ELSE <<>>
    [] p = "transition" ->
         IF n \in 2..4
         THEN << <<"transition-property", ts[1]>>, <<"transition-duration", ts[2]>> >>
              \o (IF n >= 3 THEN << <<"transition-timing-function", ts[3]>> >> ELSE <<>>)
              \o (IF n >= 4 THEN << <<"transition-delay", ts[4]>> >> ELSE <<>>)
         ELSE <<>>
    [] p = "animation" ->
         IF n = 2 THEN << <<"animation-duration", ts[1]>>, <<"animation-name", ts[2]>> >>
         ELSE IF n = 3 THEN << <<"animation-duration", ts[1]>>, <<"animation-name", ts[3]>>,
                               <<"animation-timing-function", ts[2]>> >>
         ELSE IF n = 4 THEN << <<"animation-duration", ts[1]>>, <<"animation-name", ts[4]>>,
                               <<"animation-timing-function", ts[2]>>,
                               <<IF ts[3].t = "time" THEN "animation-delay" ELSE "animation-iteration-count", ts[3]>> >>
         ELSE <<>>
    [] OTHER -> IF n = 1 THEN << <<p, ts[1]>> >> ELSE <<>>

(* ---- variables ---- *)
RECURSIVE Subst(_, _, _)
Subst(ts, vars, chain) ==
  IF ts = <<>> THEN <<>>
  ELSE LET x == Head(ts)
           here == IF x.t = "var"
                   THEN IF x.s \in chain \/ x.s \notin DOMAIN vars THEN <<Err>>
                        ELSE Subst(vars[x.s], vars, chain \cup {x.s})
                   ELSE <<x>>
       IN here \o Subst(Tail(ts), vars, chain)

IsVar(p) == StartsWith(p, "--")

(* computed style: a function from <<longhand, index of layer>> to tokens *)
RECURSIVE Puts(_, _, _)
Puts(cs, lh, idx) ==
  IF lh = <<>> THEN cs ELSE Puts((<<lh[1][1], idx>> :> lh[1][2]) @@ cs, Tail(lh), idx)

RECURSIVE Layers(_, _, _, _)
Layers(d, vars, idx, cs) ==
  IF idx > Len(d.v) THEN cs
  ELSE Layers(d, vars, idx + 1, Puts(cs, Longhands(d.p, Subst(d.v[idx], vars, {})), idx - 1))

Declare(d, vars, cs) ==
  LET new == Layers(d, vars, 1, <<>>)
      kept == {k \in DOMAIN cs : ~(k[2] >= Len(d.v) /\ <<k[1], 0>> \in DOMAIN new)}
  IN new @@ [k \in kept |-> cs[k]]

(* a block of declarations applied to [vars, cs] *)
RECURSIVE Block(_, _)
Block(ds, acc) ==
  IF ds = <<>> THEN acc
  ELSE LET d == Head(ds)
       IN Block(Tail(ds), IF IsVar(d.p) THEN [acc EXCEPT !.vars = (d.p :> d.v[1]) @@ acc.vars]
                          ELSE [acc EXCEPT !.cs = Declare(d, acc.vars, acc.cs)])

RECURSIVE Rules(_, _, _, _, _)
Rules(rules, flat, i, ps, acc) ==
  IF rules = <<>> THEN acc
  ELSE Rules(Tail(rules), flat, i, ps,
             IF Matches(Head(rules).sels, flat, i, ps) THEN Block(Head(rules).ds, acc) ELSE acc)

(* ---- application of longhands ---- *)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Unit(x, cx) ==
  CASE x.t = "px" -> x.n
    [] x.t = "em" -> (cx.pfs * x.n) \div 1000
    [] x.t = "rem" -> 16 * x.n
    [] x.t = "vw" -> (cx.vp[1] * x.n) \div 100
    [] x.t = "vh" -> (cx.vp[2] * x.n) \div 100
    [] x.t = "vmin" -> (Min(cx.vp[1], cx.vp[2]) * x.n) \div 100
    [] x.t = "vmax" -> (Max(cx.vp[1], cx.vp[2]) * x.n) \div 100

Ok(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE]

Colors == ("black" :> <<0, 0, 0, 255>>) @@ ("white" :> <<255, 255, 255, 255>>)
       @@ ("red" :> <<255, 0, 0, 255>>) @@ ("blue" :> <<0, 0, 255, 255>>)
       @@ ("green" :> <<0, 255, 0, 255>>) @@ ("transparent" :> <<0, 0, 0, 0>>)

AsColor(x, cx) ==
  CASE x.t = "col" -> Ok(x.c)
    [] x.t = "kw" -> IF x.s \in DOMAIN Colors THEN Ok(Colors[x.s])
                     ELSE IF x.s \in {"currentcolor", "currentColor"} THEN Ok(cx.pcolor) ELSE No
    [] OTHER -> No
AsAlpha(x) == CASE x.t = "zero" -> Ok(0) [] x.t \in {"num", "pct"} -> Ok(x.n) [] OTHER -> No
AsLength(x, cx, base) ==      \* a number: percentages of base
  CASE x.t = "zero" -> Ok(0) [] x.t \in Dims -> Ok(Unit(x, cx))
    [] x.t = "pct" -> Ok((base * x.n) \div 1000) [] x.t = "num" -> Ok(x.n) [] OTHER -> No
AsWidth(x, cx) ==             \* of borders
  CASE x.t = "zero" -> Ok(<<"len", 0>>) [] x.t \in Dims -> Ok(<<"len", Unit(x, cx)>>)
    [] x.t = "num" -> Ok(<<"len", x.n>>) [] OTHER -> No
AsLP(x, cx) ==
  CASE x.t = "zero" -> Ok(<<"len", 0>>) [] x.t \in Dims -> Ok(<<"len", Unit(x, cx)>>)
    [] x.t = "pct" -> Ok(<<"pct", x.n>>) [] OTHER -> No
AsLPA(x, cx) == IF x = Kw("auto") THEN Ok(<<"auto", 0>>) ELSE AsLP(x, cx)

KwMap(names, values) == <<>> @@ [s \in {names[i] : i \in DOMAIN names} |-> values[CHOOSE i \in DOMAIN names : names[i] = s]]
Items == KwMap(<<"normal", "start", "end", "flex-start", "flex-end", "center", "baseline", "stretch">>,
               <<"None", "Some(Start)", "Some(End)", "Some(FlexStart)", "Some(FlexEnd)", "Some(Center)",
                 "Some(Baseline)", "Some(Stretch)">>)
Content == KwMap(<<"normal", "start", "end", "flex-start", "flex-end", "center", "stretch",
                   "space-between", "space-evenly", "space-around">>,
                 <<"None", "Some(Start)", "Some(End)", "Some(FlexStart)", "Some(FlexEnd)", "Some(Center)",
                   "Some(Stretch)", "Some(SpaceBetween)", "Some(SpaceEvenly)", "Some(SpaceAround)">>)
Overflows == KwMap(<<"visible", "hidden", "clip", "scroll", "auto">>,
                   <<"Visible", "Hidden", "Clip", "Scroll", "Scroll">>)
Keywords ==
     ("font-style" :> KwMap(<<"normal", "italic", "oblique">>, <<"normal", "italic", "oblique">>))
  @@ ("text-align" :> KwMap(<<"start", "end", "left", "right", "center", "justify", "justify-all", "match-parent">>,
                            <<"Start", "End", "Left", "Right", "Center", "Justify", "JustifyAll", "MatchParent">>))
  @@ ("pointer-events" :> KwMap(<<"auto", "none">>, <<"Auto", "None">>))
  @@ ("cursor" :> KwMap(<<"auto", "default", "pointer", "context-menu", "help", "progress", "wait", "text", "not-allowed">>,
                        <<"Auto", "Default", "Pointer", "ContextMenu", "Help", "Progress", "Wait", "Text", "NotAllowed">>))
  @@ ("visibility" :> KwMap(<<"visible", "hidden">>, <<"visible", "hidden">>))
  @@ ("box-sizing" :> KwMap(<<"border-box", "content-box">>, <<"BorderBox", "ContentBox">>))
  @@ ("display" :> KwMap(<<"flow", "block", "flex", "grid">>, <<"Block", "Block", "Flex", "Grid">>))
  @@ ("overflow-x" :> Overflows) @@ ("overflow-y" :> Overflows)
  @@ ("position" :> KwMap(<<"relative", "absolute">>, <<"Relative", "Absolute">>))
  @@ ("align-content" :> Content) @@ ("justify-content" :> Content)
  @@ ("align-items" :> Items) @@ ("align-self" :> Items)
  @@ ("justify-items" :> Items) @@ ("justify-self" :> Items)
  @@ ("flex-direction" :> KwMap(<<"row", "row-reverse", "column", "column-reverse">>,
                                <<"Row", "RowReverse", "Column", "ColumnReverse">>))
  @@ ("flex-wrap" :> KwMap(<<"wrap", "nowrap", "wrap-reverse">>, <<"Wrap", "NoWrap", "WrapReverse">>))

ColorProps == {"color", "border-top-color", "border-right-color", "border-bottom-color", "border-left-color"}
WidthProps == {"border-top-width", "border-right-width", "border-bottom-width", "border-left-width"}
LPProps == {"padding-top", "padding-right", "padding-bottom", "padding-left", "column-gap", "row-gap",
            "border-top-left-radius", "border-top-right-radius", "border-bottom-right-radius", "border-bottom-left-radius"}
LPAProps == {"margin-top", "margin-right", "margin-bottom", "margin-left", "top", "right", "bottom", "left",
             "width", "height", "min-width", "min-height", "max-width", "max-height", "flex-basis"}

Apply1(p, x, cx) ==
  CASE p \in DOMAIN Keywords -> IF x.t = "kw" /\ x.s \in DOMAIN Keywords[p] THEN Ok(Keywords[p][x.s]) ELSE No
    [] p \in ColorProps -> AsColor(x, cx)
    [] p \in WidthProps -> AsWidth(x, cx)
    [] p \in LPProps -> AsLP(x, cx)
    [] p \in LPAProps -> AsLPA(x, cx)
    [] p = "opacity" -> AsAlpha(x)
    [] p = "font-size" -> AsLength(x, cx, cx.pfs)
    [] p = "font-weight" ->
         (CASE x.t = "num" /\ x.n >= 1000 /\ x.n <= 1000000 -> Ok(x.n \div 1000)
            [] x.t = "kw" /\ x.s = "normal" -> Ok(400)
            [] x.t = "kw" /\ x.s = "bold" -> Ok(700)
            [] OTHER -> No)
    [] p = "font-family" -> IF x.t \in {"str", "url"} THEN Ok(x.s) ELSE No
    [] p \in {"flex-grow", "flex-shrink"} ->
         (CASE x.t = "zero" -> Ok(0) [] x.t = "num" -> Ok(x.n) [] OTHER -> No)
    [] OTHER -> No

DefaultLayer == <<"none", <<0, 0, 0, 0>>, 0, 0>>
BgProps == {"background-color", "background-image", "background-position-x", "background-position-y"}

BgLayer(cs, i, cx) ==
  LET val(p, as, d) == IF <<p, i>> \in DOMAIN cs
                       THEN LET r == as IN IF r.ok THEN r.v ELSE d ELSE d
      x(p) == cs[<<p, i>>]
      img == IF <<"background-image", i>> \in DOMAIN cs
             THEN (CASE x("background-image").t \in {"str", "url"} -> x("background-image").s [] OTHER -> "none")
             ELSE "none"
  IN << img,
        val("background-color", AsColor(x("background-color"), cx), <<0, 0, 0, 0>>),
        0 - val("background-position-x", AsLength(x("background-position-x"), cx, 0), 0),
        0 - val("background-position-y", AsLength(x("background-position-y"), cx, 0), 0) >>

RECURSIVE StripLayers(_)
StripLayers(ls) == IF ls # <<>> /\ ls[Len(ls)] = DefaultLayer THEN StripLayers(SubSeq(ls, 1, Len(ls) - 1)) ELSE ls

Backgrounds(cs, cx) ==
  LET idx == {k[2] : k \in {k \in DOMAIN cs : k[1] \in BgProps}}
      n == IF idx = {} THEN 0 ELSE 1 + CHOOSE m \in idx : \A j \in idx : j <= m
  IN StripLayers([i \in 1..n |-> BgLayer(cs, i - 1, cx)])

(* what an element that nothing was declared for has *)
Defaults ==
  LET len0 == {"margin-top", "margin-right", "margin-bottom", "margin-left"} \cup LPProps \cup WidthProps
      autos == LPAProps \ len0
  IN [p \in len0 |-> <<"len", 0>>] @@ [p \in autos |-> <<"auto", 0>>]
     @@ [p \in ColorProps \ {"color"} |-> <<0, 0, 0, 0>>]
     @@ ("color" :> <<0, 0, 0, 255>>) @@ ("opacity" :> 1000) @@ ("font-size" :> 16000) @@ ("font-weight" :> 400)
     @@ ("font-family" :> "system-ui") @@ ("font-style" :> "normal") @@ ("text-align" :> "Start")
     @@ ("pointer-events" :> "Auto") @@ ("cursor" :> "Auto") @@ ("visibility" :> "visible")
     @@ ("box-sizing" :> "BorderBox") @@ ("display" :> "Block") @@ ("overflow-x" :> "Visible") @@ ("overflow-y" :> "Visible")
     @@ ("position" :> "Relative") @@ ("flex-direction" :> "Row") @@ ("flex-wrap" :> "NoWrap")
     @@ ("flex-grow" :> 0) @@ ("flex-shrink" :> 1000)
     @@ [p \in {"align-content", "align-items", "align-self", "justify-content", "justify-items", "justify-self"} |-> "None"]
     @@ ("backgrounds" :> <<>>)

InheritedProps == {"color", "font-family", "font-size", "font-style", "font-weight", "pointer-events"}

(* Styles are sparse: properties which are not there have their defaults. *)
Sty(style, p) == IF p \in DOMAIN style THEN style[p] ELSE Defaults[p]
Full(style) == style @@ Defaults

(* style of an element: inherited, then declared *)
Applied(cs, inh, cx) ==
  LET cand == {k \in DOMAIN cs : k[2] = 0 /\ k[1] \notin BgProps}
      good == {k \in cand : Apply1(k[1], cs[k], cx).ok}
      own == [p \in {k[1] : k \in good} |-> Apply1(p, cs[<<p, 0>>], cx).v]
      bg == Backgrounds(cs, cx)
  IN IF DOMAIN cs = {} THEN inh
     ELSE (IF bg = <<>> THEN own ELSE ("backgrounds" :> bg) @@ own) @@ inh

(* what children get *)
InheritedOf(style) == LET ks == InheritedProps \cap DOMAIN style
                      IN IF ks = DOMAIN style THEN style ELSE [p \in ks |-> style[p]]
=============================================================================
