------------------------------ MODULE MCSyntax ------------------------------
(* A document and a stylesheet, as tokens with the gaps between them: every   *)
(* gap is filled in every way (Thorough: every two gaps near each other), and *)
(* all gaps in the same way (C26). What the library does may not differ.      *)
EXTENDS MCDoc, BSyntax

X(s) == [k |-> "x", s |-> s]
Gap(s) == [k |-> s, s |-> ""]
O_ == Gap("c0")      \* stylesheet: may be left out
R_ == Gap("c1")      \* stylesheet: separates
N_ == Gap("h0")      \* between tags
M_ == Gap("h1")      \* behind a text
W_ == Gap("w0")      \* within a tag
S_ == Gap("w1")      \* within a tag, separates
L_ == Gap("l1")      \* within a text, one space
E_ == Gap("e0")      \* end of the last text
V_ == Gap("v0")      \* end of a void tag
FillersOf(g) ==
  CASE g = "c0" -> <<"", " ", "\n\t", "/* x */", " /* .a { width: 1px; } */\r\n ", "/***/">>
    [] g = "c1" -> <<" ", "\n", "\t\t ", "/**/", "/* x */ ", "\r\n">>
    [] g = "h0" -> <<"", "\n    ", "<!-- <b>{a}</b> -->", " \r\n<!---->\t">>
    [] g = "h1" -> <<"", "<!-- x -->", "<!-- x -->\n  <!-- \" -->">>
    [] g = "w0" -> <<"", " ", "\n  ", "\t", "\r\n">>
    [] g = "w1" -> <<" ", "\n", "   ", "\t", "\r\n  ">>
    [] g = "l1" -> <<" ", "\n", " \n     ", "\r\n\t", "\n\n">>
    [] g = "e0" -> <<"", "\n", "\n   ", " \r\n">>
    [] g = "v0" -> <<"/", "", " /", " ">>
    [] OTHER -> <<"">>

(* ---- the document ---- *)
(* attributes: name, "=", value *)
Eq(name, v) == <<S_, X(name), W_, X("="), W_, X("\"")>> \o v \o <<X("\"")>>
Br(ss) == <<X("{"), W_>> \o Flatten([i \in DOMAIN ss |-> IF i = 1 THEN <<X(ss[i]), W_>> ELSE <<X("|"), W_, X(ss[i]), W_>>]) \o <<X("}")>>
Bv(ss) == <<W_>> \o Br(ss) \o <<W_>>
Open(tag, as, kids) == <<X("<" \o tag)>> \o Flatten(as) \o <<W_, X(">")>> \o kids \o <<X("</" \o tag), W_, X(">")>>
Void(tag, as) == <<X("<" \o tag)>> \o Flatten(as) \o <<V_, X(">")>>
HtmlToks ==
  <<N_>> \o Open("html", <<>>,
    <<N_>> \o Open("template", <<Eq("id", <<X("t")>>)>>,
      <<N_>> \o Open("p", <<Eq("class", <<X("b")>>), Eq("@title", <<X("m ")>> \o Br(<<"v", "not">>) \o <<X(" ")>> \o Br(<<"v">>))>>,
                     <<N_, X("at"), L_>> \o Br(<<"v">>) \o <<E_>>) \o <<N_>>)
    \o <<N_>> \o Open("body", <<>>,
      <<N_>> \o Open("div", <<Eq("class", <<X("a")>>), <<S_, X("hidden")>>, Eq("^onmousedown", <<W_, X("k"), S_, X("$event"), S_>> \o Br(<<"o.n", "inc">>) \o <<W_>>),
                              Eq("#on", Bv(<<"f", "not">>))>>,
          <<N_, X("Hello,"), L_, X("you"), L_>> \o Br(<<"o.n">>) \o <<L_>> \o Br(<<"f">>) \o <<X("."), L_, M_>>
          \o Open("i", <<Eq("?", Bv(<<"f">>))>>, <<N_>>) \o <<N_>>
          \o Open("i", <<Eq("!", Bv(<<"f">>))>>, <<N_, X("-"), M_>>) \o <<N_, X("or"), L_, X("so"), E_, M_>>)
      \o <<N_>> \o Void("link", <<Eq("href", <<X("#t")>>), Eq("*v", <<W_, X("3"), W_>> \o Br(<<"xs">>) \o <<W_>>)>>)
      \o <<N_>> \o Void("link", <<Eq("+v", Bv(<<"o.n">>)), Eq("href", <<X("#t")>>)>>)
      \o <<N_>> \o Open("u", <<>>, Br(<<"f">>) \o <<L_>> \o Br(<<"o.n">>) \o <<M_>> \o Open("s", <<>>, <<N_>>) \o <<N_>> \o Br(<<"f">>) \o <<E_>>)
      \o <<N_>>)
    \o <<N_>>)
  \o <<N_>>
El_(tag, bs, kids) == El(tag, bs, kids)
Ex_(p, pipe) == [t |-> "e", e |-> Ex(p, pipe)]
TheBody ==
  Body(<<El("div", <<At_("class", "a"), At_("hidden", ""), On("onmousedown", <<Key_("k"), [t |-> "ev"], Ex_(<<"o", "n">>, <<"inc">>)>>),
                     [b |-> "tag", k |-> "on", e |-> Ex(<<"f">>, <<"not">>)]>>,
            <<Tx(<<Lit("Hello, you "), Ex_(<<"o", "n">>, <<>>), Lit(" "), Ex_(<<"f">>, <<>>), Lit(". ")>>),
              El("i", <<Vis(TRUE, <<"f">>)>>, <<>>), El("i", <<Vis(FALSE, <<"f">>)>>, <<Tx(<<Lit("-")>>)>>), Tx(<<Lit("or so")>>)>>),
         El("link", <<At_("href", "#t"), Rep("v", 3, <<"xs">>)>>, <<>>),
         El("link", <<Ali("v", <<"o", "n">>), At_("href", "#t")>>, <<>>),
         El("u", <<>>, <<Tx(<<Ex_(<<"f">>, <<>>), Lit(" "), Ex_(<<"o", "n">>, <<>>)>>), El("s", <<>>, <<>>), Tx(<<Ex_(<<"f">>, <<>>)>>)>>)>>)
TheTemplate == [id |-> "#t", root |-> El("p", <<At_("class", "b"), Bd("title", <<Lit("m "), Ex_(<<"v">>, <<"not">>), Lit(" "), Ex_(<<"v">>, <<>>)>>)>>,
                                         <<Tx(<<Lit("at "), Ex_(<<"v">>, <<>>)>>)>>)]

(* ---- the stylesheet ---- *)
Dc(p, vs) == <<X(p), O_, X(":"), O_>> \o vs \o <<O_, X(";"), O_>>
Rl(sels, ds) == sels \o <<O_, X("{"), O_>> \o Flatten(ds) \o <<X("}"), O_>>
Vs(ss) == Flatten([i \in DOMAIN ss |-> IF i = 1 THEN <<X(ss[i])>> ELSE <<R_, X(ss[i])>>])
Fn(name, ss) == <<X(name), X("("), O_>> \o Flatten([i \in DOMAIN ss |-> IF i = 1 THEN <<X(ss[i]), O_>> ELSE <<X(","), O_, X(ss[i]), O_>>]) \o <<X(")")>>
Cm == <<O_, X(","), O_>>
CssToks ==
  <<O_>> \o Rl(<<X(".a"), O_, X(","), O_, X("u"), R_, X(">"), R_, X("s")>>,
          <<Dc("padding", Vs(<<"1px", "2px", "3px">>)), Dc("color", Fn("rgb", <<"1", "2", "3">>)), Dc("--v", Vs(<<"4px">>)),
            Dc("background-image", Fn("url", <<"\"a.png\"">>) \o Cm \o Fn("url", <<"\"b  c.png\"">>))>>)
  \o Rl(<<X("div"), O_, X("+"), O_, X(".b"), O_, X("~"), O_, X("p[title]:first-child"), Gap("c0"), X(","), O_, X("i"), O_, X("+"), O_, X("i")>>, <<>>)
  \o Rl(<<X("*.a")>>, <<Dc("width", Fn("var", <<"--v">>)), Dc("height", Vs(<<"50px">>)), Dc("position", Vs(<<"absolute">>)), Dc("left", Vs(<<"0">>)), Dc("top", Vs(<<"0px">>)),
                        Dc("transition", Vs(<<"height", "1s">>) \o Cm \o Vs(<<"opacity", "250ms", "1s">>)),
                        Dc("font-family", Vs(<<"\"x /* y */ z\"">>))>>)
  \o <<X("@keyframes"), R_, X("k"), O_, X("{"), O_>> \o Rl(<<X("from")>>, <<Dc("opacity", Vs(<<"0.5">>))>>)
        \o Rl(<<X("50%")>>, <<Dc("width", Vs(<<"8px">>)), Dc("opacity", Vs(<<"1.0">>))>>) \o Rl(<<X("to")>>, <<Dc("width", Vs(<<"16px">>))>>) \o <<X("}"), O_>>
  \o Rl(<<X("p"), O_, X("+"), O_, X("u")>>, <<Dc("animation", Vs(<<"1s", "k", "infinite">>)), Dc("opacity", Vs(<<"0.25">>)), Dc("border-width", Vs(<<"1px", "0", "2em", "10%">>))>>)
Sl(parts, combs) == [parts |-> parts, combs |-> combs]
Ds(p, vs) == Decl(p, vs)
UrlT(s) == [t |-> "url", s |-> s]
EmT(n) == [t |-> "em", n |-> n * 1000]
PcT(n) == [t |-> "pct", n |-> n * 10]
StrT(s) == [t |-> "str", s |-> s]
ZeroT == [t |-> "zero", n |-> 0]
TheRules ==
  <<Rule(<<One(<<Cls("a")>>), Sl(<< <<Tag("u")>>, <<Tag("s")>> >>, <<">">>)>>,
         <<Ds("padding", <<PxT(1), PxT(2), PxT(3)>>), Ds("color", <<ColT(1, 2, 3)>>), Ds("--v", <<PxT(4)>>),
           [p |-> "background-image", v |-> << <<UrlT("a.png")>>, <<UrlT("b  c.png")>> >>]>>),
    Rule(<<One(<<Star, Cls("a")>>)>>,
         <<Ds("width", <<VarT("--v")>>), Ds("height", <<PxT(50)>>), Ds("position", <<Kw("absolute")>>), Ds("left", <<ZeroT>>), Ds("top", <<PxT(0)>>),
           [p |-> "transition", v |-> << <<Kw("height"), TimeT(8)>>, <<Kw("opacity"), TimeT(2), TimeT(8)>> >>],
           Ds("font-family", <<StrT("x /* y */ z")>>)>>),
    Rule(<<Sl(<< <<Tag("p")>>, <<Tag("u")>> >>, <<"+">>)>>,
         <<Ds("animation", <<TimeT(8), Kw("k"), Kw("infinite")>>), Ds("opacity", <<NumT(250)>>), Ds("border-width", <<PxT(1), ZeroT, EmT(2), PcT(10)>>)>>)>>
TheAnims == "k" :> <<[step |-> 0, ds |-> <<Ds("opacity", <<NumT(500)>>)>>], [step |-> 50, ds |-> <<Ds("width", <<PxT(8)>>), Ds("opacity", <<NumT(1000)>>)>>],
                     [step |-> 100, ds |-> <<Ds("width", <<PxT(16)>>)>>]>>
TheDoc == [tpls |-> <<TheTemplate>>, body |-> TheBody, rules |-> TheRules, anims |-> TheAnims, inl |-> <<>>]

Val(n, f, xs) == Obj(<< <<"f", Bool(f)>>, <<"o", Obj(<< <<"n", Num(n)>> >>)>>, <<"xs", Arr(xs)>> >>)
Click == <<[e |-> "move", x |-> 2000, y |-> 20000], [e |-> "down", b |-> "Left"]>>
TheSteps == <<St(Val(5, TRUE, <<Num(1), Str("x y")>>), 0, <<>>), St(Val(6, FALSE, <<Num(1)>>), 3, Click), St(Val(6, TRUE, <<>>), 2, <<>>)>>

(* ---- fillings ---- *)
RECURSIVE Joined(_, _, _, _)
Joined(toks, f, i, j) ==
  IF i = j THEN IF toks[i].k = "x" THEN toks[i].s ELSE FillersOf(toks[i].k)[f[i]]
  ELSE Joined(toks, f, i, (i + j) \div 2) \o Joined(toks, f, (i + j) \div 2 + 1, j)
Text(toks, f) == Joined(toks, f, 1, Len(toks))
ToksOf(p) == IF p = "html" THEN HtmlToks ELSE CssToks
Plain(p) == [i \in DOMAIN ToksOf(p) |-> 1]
Gaps(p) == {i \in DOMAIN ToksOf(p) : ToksOf(p)[i].k # "x"}
Html0 == Text(HtmlToks, Plain("html"))
Css0 == Text(CssToks, Plain("css"))
(* the number of a filling for all gaps at once *)
All(p, n) == [i \in DOMAIN ToksOf(p) |-> LET m == Len(FillersOf(ToksOf(p)[i].k)) IN 1 + (n % m)]

VARIABLES part, fill, at, rest
vars == <<part, fill, at, rest>>
Write(p, f) ==
  LET text == Text(ToksOf(p), f) IN
  PrintT("##" \o ToJson([doc |-> TheDoc, steps |-> TheSteps, html |-> IF p = "html" THEN text ELSE Html0, css |-> IF p = "css" THEN text ELSE Css0]))
Init == /\ part \in {"html", "css"} /\ at = 0 /\ rest = IF Thorough THEN 2 ELSE 1
        /\ \E n \in 0..5 : fill = All(part, n)
        /\ Write(part, fill)
Next == /\ rest > 0
        /\ at = 0 => fill = Plain(part)
        /\ \E i \in Gaps(part) : /\ i > at /\ (at > 0 => i - at < 12)
                                 /\ \E j \in 2..Len(FillersOf(ToksOf(part)[i].k)) : fill' = [fill EXCEPT ![i] = j]
                                 /\ at' = i
        /\ rest' = rest - 1 /\ UNCHANGED part
        /\ Write(part, fill')

(* ---- laws ---- *)
HtmlLex == LexHtml(Html0)
CssLex == LexCss(Css0)
PlainLex == IF part = "html" THEN HtmlLex ELSE CssLex
LexOf(p, s) == IF p = "html" THEN LexHtml(s) ELSE LexCss(s)
(* what is left without gaps is the same for all fillings *)
Same == LexOf(part, Text(ToksOf(part), fill)) = PlainLex
(* gaps which separate cannot be left out *)
Without(toks, i) == Text([j \in DOMAIN toks |-> IF j = i THEN X("") ELSE toks[j]], [j \in DOMAIN toks |-> 1])
Needed == at # 0 /\ rest = (IF Thorough THEN 1 ELSE 0) /\ ToksOf(part)[at].k \in {"w1", "l1", "c1"} =>
  LET before == ToksOf(part)[at - 1] behind == ToksOf(part)[at + 1]
  IN \/ LexOf(part, Without(ToksOf(part), at)) # PlainLex
     \/ before.s \in {"$event", "\"", ")"} \/ behind.s \in {">", "{"} \/ before.s = ">"
=============================================================================
