------------------------------- MODULE BLayout -------------------------------
(* Geometry. Block layout is specified exactly for trees which only consist  *)
(* of what Simple accepts; for other trees (flex and so on) the layout is    *)
(* computed by an external library and only its composition is specified.    *)
(* All quantities are in thousandths.                                        *)
(* flat: displayed tree (BTemplate), ss: styles of its nodes (BCascade)      *)
EXTENDS BCascade

RECURSIVE SumOver(_, _, _)
SumOver(f(_), s, i) == IF i > Len(s) THEN 0 ELSE f(s[i]) + SumOver(f, s, i + 1)
RECURSIVE MaxOver(_, _, _)
MaxOver(f(_), s, i) == IF i > Len(s) THEN 0 ELSE Max(f(s[i]), MaxOver(f, s, i + 1))

KidsOf(flat, i) == SelectSeq([j \in DOMAIN flat |-> j], LAMBDA j : flat[j].par = i)

AutoLen == <<"auto", 0>>
LenV(v) == v[1] = "len" /\ v[2] >= 0
SizeV(v) == v = AutoLen \/ (v[1] \in {"len", "pct"} /\ v[2] >= 0)

Simple1(n, s, root) ==
  IF n.k = "tx" THEN TRUE
  ELSE IF n.k = "bg" THEN FALSE
  ELSE /\ s["display"] = "Block" /\ (root => s["position"] = "Relative")
       /\ \A p \in {"margin-top", "margin-bottom"} : s[p] = <<"len", 0>>
       /\ \A p \in {"margin-left", "margin-right"} :
            IF root \/ s["position"] = "Absolute" THEN s[p] = <<"len", 0>> ELSE s[p] = AutoLen \/ LenV(s[p])
       /\ \A p \in {"padding-top", "padding-right", "padding-bottom", "padding-left"} \cup WidthProps : LenV(s[p])
       /\ \A p \in {"min-width", "max-width", "min-height", "max-height"} : s[p] = AutoLen \/ LenV(s[p])
       /\ s["min-width"] = AutoLen \/ s["max-width"] = AutoLen
       /\ s["min-height"] = AutoLen \/ s["max-height"] = AutoLen
       /\ SizeV(s["width"]) /\ SizeV(s["height"])
       /\ \A p \in {"left", "right", "top", "bottom"} : s[p][1] \in {"auto", "len", "pct"}

Simple(flat, ss) == \A i \in DOMAIN flat : Simple1(flat[i], ss[i], i = 1)

InFlow(flat, ss, i) == flat[i].k = "tx" \/ ss[i]["position"] = "Relative"
FlowKids(flat, ss, i) == SelectSeq(KidsOf(flat, i), LAMBDA j : InFlow(flat, ss, j))

(* padding and border of both sides *)
HFrame(s) == s["padding-left"][2] + s["padding-right"][2] + s["border-left-width"][2] + s["border-right-width"][2]
VFrame(s) == s["padding-top"][2] + s["padding-bottom"][2] + s["border-top-width"][2] + s["border-bottom-width"][2]

Part(base, pct) == (base \div 1000) * pct + ((base % 1000) * pct) \div 1000    \* within 32 bits

Unset == 0 - 1000000000
Clamp(v, min, max) == LET a == IF max = Unset THEN v ELSE Min(v, max) IN IF min = Unset THEN a ELSE Max(a, min)

(* a declared size as outer size; percentages of base, if that is definite *)
DimOf(s, p, base, frame) ==
  LET more == IF s["box-sizing"] = "ContentBox" THEN frame ELSE 0
  IN CASE s[p] = AutoLen -> Unset
       [] s[p][1] = "pct" -> IF base = Unset THEN Unset ELSE Part(base, s[p][2]) + more
       [] OTHER -> s[p][2] + more
ClampW(s, v) == IF v = Unset THEN v ELSE Clamp(v, DimOf(s, "min-width", Unset, HFrame(s)), DimOf(s, "max-width", Unset, HFrame(s)))
ClampH(s, v) == IF v = Unset THEN v ELSE Clamp(v, DimOf(s, "min-height", Unset, VFrame(s)), DimOf(s, "max-height", Unset, VFrame(s)))
Fixed(s, p) == IF s[p][1] = "len" THEN s[p][2] ELSE 0
MarginsOf(s) == Fixed(s, "margin-left") + Fixed(s, "margin-right")

(* the fonts of the test harness: characters have different widths, bold ones *)
(* and those of one family are wider, italic ones higher (in eighths of an em) *)
WideChars == {"a", "e", "m", "x", "H", "T", "0", "2", "7"}
RECURSIVE Wides(_, _)
Wides(tx, i) == IF i > Len(tx) THEN 0 ELSE (IF SubSeq(tx, i, i) \in WideChars THEN 1 ELSE 0) + Wides(tx, i + 1)
FontUnits(s) == 4 + (IF s["font-weight"] >= 600 THEN 1 ELSE 0) + (IF s["font-family"] = "mono" THEN 2 ELSE 0)
TextWidth(n, s) == ((FontUnits(s) * Len(n.tx) + 2 * Wides(n.tx, 1)) * s["font-size"]) \div 8
TextHeight(s) == IF s["font-style"] = "italic" THEN s["font-size"] + s["font-size"] \div 8 ELSE s["font-size"]

RECURSIVE Fit(_, _, _)   \* width of a box by its content, without constraints
Fit(flat, ss, i) ==
  LET s == ss[i]
      wish(j) == IF flat[j].k = "tx" THEN TextWidth(flat[j], ss[j])
                 ELSE LET v == ClampW(ss[j], DimOf(ss[j], "width", Unset, HFrame(ss[j])))
                      IN Max(HFrame(ss[j]), IF v # Unset THEN v ELSE Fit(flat, ss, j) + MarginsOf(ss[j]))
  IN Max(HFrame(s), ClampW(s, HFrame(s) + MaxOver(wish, FlowKids(flat, ss, i), 1)))

RECURSIVE Tall(_, _, _, _)   \* height of a box in the flow; base: height which percentages refer to
Tall(flat, ss, i, base) ==
  LET s == ss[i]
      v == ClampH(s, DimOf(s, "height", base, VFrame(s)))
  IN IF flat[i].k = "tx" THEN TextHeight(s)
     ELSE Max(VFrame(s), IF v # Unset THEN v
                         ELSE ClampH(s, VFrame(s) + SumOver(LAMBDA j : Tall(flat, ss, j, Unset), FlowKids(flat, ss, i), 1)))

Shift(s, a, b, base) ==
  CASE s[a] # AutoLen -> (IF s[a][1] = "pct" THEN Part(base, s[a][2]) ELSE s[a][2])
    [] s[b] # AutoLen -> 0 - (IF s[b][1] = "pct" THEN Part(base, s[b][2]) ELSE s[b][2])
    [] OTHER -> 0
Inset(s, p, base) == IF s[p] = AutoLen THEN Unset ELSE IF s[p][1] = "pct" THEN Part(base, s[p][2]) ELSE s[p][2]

(* Boxes of all nodes in tree order, given those of the nodes before:        *)
(*   x, y, w, h - the box before it is rounded to pixels                     *)
(*   pw, ph - inner size which percentages of children refer to, or Unset    *)
(*   fy, end - beginning and end in the flow, without relative offsets       *)
(*   low - where a box out of the flow would be placed after it              *)
(*   vague - the layout of children may be one which the layout library kept *)
(*           from measuring the content, without a base for percentages      *)
(* the layout library lets a box without own height collapse - also if it    *)
(* has something inside and its height is a percentage: the next one then    *)
(* starts where it started                                                   *)
RECURSIVE Hollow(_, _, _, _)
Hollow(flat, ss, i, base) ==
  LET s == ss[i]
      v == DimOf(s, "height", base, VFrame(s))
      inner == IF v = Unset THEN Unset ELSE ClampH(s, v)
  IN /\ flat[i].k # "tx" /\ VFrame(s) = 0
     /\ ~(s["height"][1] = "len" /\ s["height"][2] > 0) /\ ~(s["min-height"][1] = "len" /\ s["min-height"][2] > 0)
     /\ \A p \in {"overflow-x", "overflow-y"} : s[p] \in {"Visible", "Clip"}
     /\ IF KidsOf(flat, i) = <<>> THEN inner \in {Unset, 0}
        ELSE SelectSeq(FlowKids(flat, ss, i), LAMBDA j : ~Hollow(flat, ss, j, inner)) = <<>>

PctWide(flat, ss, j) == flat[j].k # "tx" /\ ss[j]["width"][1] = "pct"

BodyBox(flat, ss) ==
  LET s == ss[1]
      v == ClampW(s, DimOf(s, "width", Unset, HFrame(s)))
      u == ClampH(s, DimOf(s, "height", Unset, VFrame(s)))
      w == IF v # Unset THEN Max(v, HFrame(s)) ELSE Fit(flat, ss, 1)
      h == Tall(flat, ss, 1, Unset)
  IN [x |-> 0, y |-> 0, w |-> w, h |-> h, fy |-> 0, end |-> h, low |-> h, vague |-> FALSE,
      pw |-> IF v # Unset THEN w - HFrame(s) ELSE Unset, ph |-> IF u # Unset THEN h - VFrame(s) ELSE Unset]

FlowBox(flat, ss, acc, i) ==
  LET n == flat[i] s == ss[i] p == n.par
      inner == acc[p].w - HFrame(ss[p])
      left == acc[p].x + ss[p]["border-left-width"][2] + ss[p]["padding-left"][2]
      fy == IF n.prev = 0 THEN acc[p].y + ss[p]["border-top-width"][2] + ss[p]["padding-top"][2] ELSE acc[n.prev].end
      h == Tall(flat, ss, i, acc[p].ph)
  IN IF n.k = "tx"
     THEN [x |-> left, y |-> fy, w |-> Max(inner, 0), h |-> h, fy |-> fy, end |-> fy + h, low |-> fy + h, vague |-> FALSE, pw |-> Unset, ph |-> Unset]
     ELSE LET v == DimOf(s, "width", acc[p].pw, HFrame(s))
              w == Max(HFrame(s), ClampW(s, IF v = Unset THEN inner - MarginsOf(s) ELSE v))
              free == Max(0, inner - w - MarginsOf(s))
              autos == (IF s["margin-left"] = AutoLen THEN 1 ELSE 0) + (IF s["margin-right"] = AutoLen THEN 1 ELSE 0)
              ml == IF s["margin-left"] = AutoLen THEN free \div autos ELSE Fixed(s, "margin-left")
          IN [x |-> left + ml + Shift(s, "left", "right", inner), y |-> fy + Shift(s, "top", "bottom", 0),
              w |-> w, h |-> h, fy |-> fy, end |-> IF Hollow(flat, ss, i, acc[p].ph) THEN fy ELSE fy + h, low |-> fy + h, pw |-> w - HFrame(s),
              vague |-> s["width"][1] # "len" /\ w = Fit(flat, ss, i) /\ SelectSeq(FlowKids(flat, ss, i), LAMBDA j : PctWide(flat, ss, j)) # <<>>,
              ph |-> IF DimOf(s, "height", acc[p].ph, VFrame(s)) = Unset THEN Unset ELSE h - VFrame(s)]

(* out of the flow: relative to the box of the parent inside its border      *)
AbsoluteBox(flat, ss, acc, i) ==
  LET n == flat[i] s == ss[i] p == n.par sp == ss[p]
      aw == acc[p].w - sp["border-left-width"][2] - sp["border-right-width"][2]
      ah == acc[p].h - sp["border-top-width"][2] - sp["border-bottom-width"][2]
      ax == acc[p].x + sp["border-left-width"][2]
      ay == acc[p].y + sp["border-top-width"][2]
      l == Inset(s, "left", aw) r == Inset(s, "right", aw)
      t == Inset(s, "top", ah) b == Inset(s, "bottom", ah)
      both(v, from, to, area) == IF v = Unset /\ from # Unset /\ to # Unset THEN Max(area - from - to, 0) ELSE v
      dw == both(DimOf(s, "width", aw, HFrame(s)), l, r, aw)
      dh == both(DimOf(s, "height", ah, VFrame(s)), t, b, ah)
      w == Max(HFrame(s), ClampW(s, IF dw # Unset THEN dw ELSE Fit(flat, ss, i)))
      h == Max(VFrame(s), ClampH(s, IF dh # Unset THEN dh
               ELSE VFrame(s) + SumOver(LAMBDA j : Tall(flat, ss, j, Unset), FlowKids(flat, ss, i), 1)))
      committed == IF n.prev = 0 THEN ay + sp["padding-top"][2] ELSE acc[n.prev].end
      flow == IF n.prev = 0 THEN ay + sp["padding-top"][2] ELSE acc[n.prev].low
  IN [x |-> IF l # Unset THEN ax + l ELSE IF r # Unset THEN ax + aw - w - r ELSE ax + sp["padding-left"][2],
      y |-> IF t # Unset THEN ay + t ELSE IF b # Unset THEN ay + ah - h - b ELSE flow,
      w |-> w, h |-> h, fy |-> flow, end |-> committed, low |-> flow, vague |-> FALSE,
      pw |-> IF dw # Unset THEN w - HFrame(s) ELSE Unset, ph |-> IF dh # Unset THEN h - VFrame(s) ELSE Unset]

RECURSIVE BoxesOf(_, _, _)
BoxesOf(flat, ss, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(flat) THEN acc
  ELSE BoxesOf(flat, ss, Append(acc, IF i = 1 THEN BodyBox(flat, ss)
                                   ELSE IF InFlow(flat, ss, i) THEN FlowBox(flat, ss, acc, i) ELSE AbsoluteBox(flat, ss, acc, i)))

(* size of what is inside, from the corner of the box                        *)
RECURSIVE Extent(_, _, _, _)
Extent(flat, ss, bs, i) ==
  LET s == ss[i]
      kids == KidsOf(flat, i)
      part(j) == LET e == Extent(flat, ss, bs, j)
                     w == IF ss[j]["overflow-x"] = "Visible" THEN Max(bs[j].w, e[1]) ELSE bs[j].w
                     h == IF ss[j]["overflow-y"] = "Visible" THEN Max(bs[j].h, e[2]) ELSE bs[j].h
                 IN IF w > 0 /\ h > 0 THEN <<bs[j].x - bs[i].x + w, bs[j].y - bs[i].y + h>> ELSE <<0, 0>>
  IN IF flat[i].k = "tx" THEN <<TextWidth(flat[i], s), TextHeight(s)>>
     ELSE IF kids = <<>> THEN <<s["padding-left"][2] + s["padding-right"][2], s["padding-top"][2] + s["padding-bottom"][2]>>
     ELSE <<MaxOver(LAMBDA j : part(j)[1], kids, 1), MaxOver(LAMBDA j : part(j)[2], kids, 1)>>

(* ---- boxes are rounded to pixels: the offset in the parent, and edges     *)
Round(v) == IF v >= 0 THEN ((v + 500) \div 1000) * 1000 ELSE 0 - (((500 - v) \div 1000) * 1000)
Close(v) == LET r == v % 1000 IN r > 480 /\ r < 520       \* may be rounded to either side
RECURSIVE Rounded(_, _, _)
Rounded(flat, bs, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(bs) THEN acc
  ELSE LET b == bs[i] p == flat[i].par
           px == IF p = 0 THEN 0 ELSE bs[p].x
           py == IF p = 0 THEN 0 ELSE bs[p].y
       IN Rounded(flat, bs, Append(acc,
            [x |-> (IF p = 0 THEN 0 ELSE acc[p].x) + Round(b.x - px), y |-> (IF p = 0 THEN 0 ELSE acc[p].y) + Round(b.y - py),
             w |-> Round(b.x + b.w) - Round(b.x), h |-> Round(b.y + b.h) - Round(b.y), fy |-> b.fy,
             clear |-> ~(b.vague \/ Close(b.x - px) \/ Close(b.y - py) \/ Close(b.x) \/ Close(b.y) \/ Close(b.x + b.w) \/ Close(b.y + b.h))]))
Boxes(flat, ss) == Rounded(flat, BoxesOf(flat, ss, <<>>), <<>>)
Clear(boxes) == \A i \in DOMAIN boxes : boxes[i].clear

(* ---- composition along the tree, for any layout ---- *)
(* local: Seq(<<x, y, w, h, content w, content h>>) relative to the parent   *)
Scroll(l) == IF l[5] > l[3] \/ l[6] > l[4]
             THEN <<0, 0, Max(l[5] - l[3], 0), Max(l[6] - l[4], 0)>> ELSE <<>>

RECURSIVE Compose(_, _, _, _)
Compose(flat, ss, local, acc) ==
  LET i == Len(acc) + 1 IN
  IF i > Len(flat) THEN acc
  ELSE LET p == flat[i].par
           l == local[i]
           x == l[1] + (IF p = 0 THEN 0 ELSE acc[p].g[1])
           y == l[2] + (IF p = 0 THEN 0 ELSE acc[p].g[2])
       IN Compose(flat, ss, local, Append(acc,
            [g |-> <<x, y, l[3], l[4]>>,
             scr |-> Scroll(l),
             op |-> IF p = 0 THEN ss[i]["opacity"] ELSE (acc[p].op * ss[i]["opacity"]) \div 1000,
             clip |-> IF p = 0 THEN <<>> ELSE IF acc[p].scr # <<>> THEN acc[p].g ELSE acc[p].clip]))
(* ---- fonts which break texts: a text gets as many lines as its width needs *)
(* (no width at all: no lines). Given the boxes l in their parents, what has  *)
(* to hold for them                                                           *)
LinesIn(natural, w) == IF natural <= w THEN 1 ELSE IF w <= 0 THEN 0 ELSE (natural + w - 1) \div w
Within(a, b, d) == a - b <= d /\ b - a <= d
WrapLaws(flat, ss, l) ==
  LET Kids(i) == KidsOf(flat, i)
      IsT(i) == flat[i].k = "tx"
      Natural(i) == TextWidth(flat[i], ss[i])
      InnerW(p) == Max(0, l[p][3] - HFrame(ss[p]))
      Column(p) == ss[p]["display"] = "Block" \/ (ss[p]["display"] = "Flex" /\ ss[p]["flex-direction"] \in {"Column", "ColumnReverse"})
      Blocks(p) == ss[p]["display"] = "Block"
      \* (widths are rounded to pixels)
      Lines_(i) == /\ l[i][3] > 0 => l[i][4] >= TextHeight(ss[i]) * LinesIn(Natural(i), l[i][3] + 1000) - 1000
                   /\ l[i][3] > 1000 => l[i][4] <= TextHeight(ss[i]) * LinesIn(Natural(i), l[i][3] - 1000) + 1000
      Texts_(p) == Kids(p) # <<>> /\ \A n \in DOMAIN Kids(p) : IsT(Kids(p)[n])
      Loose(s) == \A q \in {"height", "min-height", "max-height"} : s[q] = AutoLen
      Row_(p) == ss[p]["display"] = "Flex" /\ ss[p]["flex-direction"] = "Row" /\ ss[p]["flex-wrap"] = "NoWrap"
      KidWidths(p) == SumOver(LAMBDA j : l[j][3], Kids(p), 1)
      KidHeights(p) == SumOver(LAMBDA j : l[j][4], Kids(p), 1)
      Naturals(p) == SumOver(LAMBDA j : Natural(j), Kids(p), 1)
  IN {<<"lines", i>> : i \in {j \in DOMAIN flat : IsT(j) /\ Column(flat[j].par) /\ ~Lines_(j)}}
     \cup {<<"fills", i>> : i \in {j \in DOMAIN flat : IsT(j) /\ Blocks(flat[j].par) /\ ~Within(l[j][3], InnerW(flat[j].par), 1000)}}
     \cup {<<"height", p>> : p \in {j \in DOMAIN flat : Blocks(j) /\ Loose(ss[j]) /\ Texts_(j)
                                    /\ ~(ss[j]["position"] = "Absolute" /\ ss[j]["top"] # AutoLen /\ ss[j]["bottom"] # AutoLen)
                                    /\ j > 1 /\ Blocks(flat[j].par)
                                    /\ ~Within(l[j][4], VFrame(ss[j]) + KidHeights(j), 1000)}}
     \* in a row they are narrower than the row together, and as wide as they want if there is enough room
     \cup {<<"row", p>> : p \in {j \in DOMAIN flat : /\ Row_(j) /\ Texts_(j)
                                    /\ LET n == Len(Kids(j)) * 1000 + 1000
                                       IN ~(/\ KidWidths(j) <= InnerW(j) + n
                                            /\ Naturals(j) <= InnerW(j) => Within(KidWidths(j), Naturals(j), n))}}
     \* a box out of the flow is as wide as its longest text, but not wider than its parent
     \cup {<<"shrink", p>> : p \in {j \in DOMAIN flat : /\ j > 1 /\ Blocks(j) /\ Blocks(flat[j].par) /\ Texts_(j) /\ ss[j]["position"] = "Absolute"
                                    /\ \A q \in {"width", "min-width", "max-width"} : ss[j][q] = AutoLen
                                    /\ ~(ss[j]["left"] # AutoLen /\ ss[j]["right"] # AutoLen)
                                    /\ LET most == MaxOver(Natural, Kids(j), 1)
                                       IN ~(InnerW(j) <= most + 1000 /\ l[j][3] <= Max(l[flat[j].par][3], HFrame(ss[j])) + 1000 /\ (most <= l[flat[j].par][3] - 100000 => Within(InnerW(j), most, 1000)))}}
=============================================================================
