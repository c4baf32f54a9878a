------------------------------- MODULE MCText -------------------------------
(* All short texts over the signs and words of both languages, in four        *)
(* frames, and every property with all short lists of values: loading gives   *)
(* a view or an error, and views can be updated (C24).                        *)
EXTENDS MCDoc

Content_ == <<"<", ">", "/>", "</", "div", "<p>", "</p>", "<br>", "<!--", "-->", "{", "}", "{xs}", "{a|not}", "x", " ", "=", "\"", "<template id=\"t\">",
              "</template>", "<link href=\"#t\"/>", "<link/>", "<img src=\"{a}\"/>", "<script>", "</script>", "</body>", "<body>", "|", "\\">>
Attrs_ == <<"id", "=", "\"", "\"x\"", "{a}", "\"{a}\"", " ", "*", "*it=\"3 {xs}\"", "*it=\"9 {o}\"", "+al", "+al=\"{o}\"", "#on=\"{a}\"", "@src=\"{xs}\"", "@style=\"{a}\"", "style=\"{\"",
            "^", "^onclick=", "\"$event\"", "?=\"{a}\"", "!=\"{xs}\"", ">", "/", "class=\"a\"", "draggable=\"true\"", "'">>
Sheet_ == <<"{", "}", ":", ";", ",", "(", ")", "[", "]", ".", "#", ">", "+", "~", "*", "@keyframes k", "@", "a", "div", ":hover", "opacity", "1px", "0.5", "-", "--x",
            "var(--x)", "\"", "/*", "*/", "%", " ", "from", "50%", "{opacity:1;}">>
Decls_ == <<"opacity", "--x", "animation", "transition", "width", ":", ";", ",", " ", "(", ")", "1px", "1s", "k", "0", "0.5", "var(--x)", "\"", "#12", "#123456789", "rgb(1,2,3)", "url(\"a\")", "-", ".", "%", "em">>
Frames == <<"content", "attrs", "sheet", "decls">>
AlphaOf(f) == CASE f = "content" -> Content_ [] f = "attrs" -> Attrs_ [] f = "sheet" -> Sheet_ [] f = "decls" -> Decls_

Props_ == <<"align-content", "align-items", "align-self", "animation", "animation-delay", "animation-direction", "animation-duration", "animation-fill-mode",
            "animation-iteration-count", "animation-name", "animation-play-state", "animation-timing-function", "background", "background-color", "background-image",
            "background-position", "background-position-x", "background-position-y", "background-size", "border", "border-bottom", "border-bottom-color", "border-bottom-left-radius",
            "border-bottom-width", "border-color", "border-left", "border-radius", "border-right", "border-style", "border-top", "border-top-width", "border-width", "bottom", "box-sizing", "color",
            "column-gap", "cursor", "display", "flex", "flex-basis", "flex-direction", "flex-flow", "flex-grow", "flex-shrink", "flex-wrap", "font", "font-family", "font-size", "font-style",
            "font-weight", "gap", "grid-template-columns", "grid-column", "height", "inset", "justify-content", "justify-items", "justify-self", "left", "letter-spacing", "line-height", "margin", "margin-top",
            "max-height", "max-width", "min-height", "min-width", "opacity", "outline", "overflow", "overflow-x", "padding", "padding-left", "pointer-events", "position",
            "right", "row-gap", "text-align", "text-decoration", "top", "transform", "transition", "transition-delay", "transition-duration", "transition-property",
            "transition-timing-function", "visibility", "width", "word-break", "z-index", "--x">>
Words_ == <<"0", "1", "-1.5", "5px", "50%", "2em", "1s", "-1s", "0s", "none", "auto", "all", "k", "opacity", "#123456", "#12345", "rgb(1, 2, 3)", "rgba(1, 2)", "url(\"a\")", "url(b)", "\"s\"",
            "var(--x)", "var(--y)", "steps(3)", "cubic-bezier(1, 2, 3, 4)", "translate(1px, 2px)", "99999999999px", "inherit", "initial">>
Gaps_ == <<" ", ", ">>

Val0 == Obj(<< <<"a", Str("color: red;")>>, <<"o", Obj(<< <<"n", Num(1)>> >>)>>, <<"xs", Arr(<<Num(1), Str("x")>>)>> >>)
Val1 == Obj(<< <<"a", Arr(<<>>)>>, <<"o", Arr(<<Num(1)>>)>>, <<"xs", Null>> >>)
Steps_ == <<St(Val0, 0, <<>>), St(Val1, 3, <<[e |-> "move", x |-> 2000, y |-> 2000], [e |-> "down", b |-> "Left"], [e |-> "up", b |-> "Left"]>>), St(Val0, 20, <<>>)>>
Plain_ == "<html><template id=\"t\"><b>{a}</b></template><body><div class=\"a\">{a}<p></p></div></body></html>"
Css_ == "@keyframes k { from { opacity: 0; } to { opacity: 1; } } .a { --x: 5px; width: 50px; height: 50px; }"
Out(html, css, expect) == PrintT("##" \o ToJson([doc |-> Doc(Body(<<>>), <<>>), steps |-> Steps_, html |-> html, css |-> css, opts |-> [expect |-> expect]]))
Write(f, w) ==
  CASE f = "content" -> Out("<html><template id=\"t\"><b>{a}</b></template><body>" \o w \o "</body></html>", Css_, "any")
    [] f = "attrs"   -> Out("<html><template id=\"t\"><b>{a}</b></template><body><div " \o w \o ">{it}</div></body></html>", Css_, "any")
    [] f = "sheet"   -> Out(Plain_, w \o Css_, "any")
    [] f = "decls"   -> Out(Plain_, Css_ \o " .a { " \o w \o " } p { transition: opacity 1s; animation: 1s k; " \o w \o "}", "any")

(* a property with lists of one or two values, each declared by one rule of a stylesheet; later ones are seen by other elements *)
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Joined(Tail(ss))
Lists(p, w) == Joined(<<"<html><body>">> \o [i \in 1..(2 * Len(Words_) + 1) |-> "<div class=\"c" \o ToString(i) \o "\"><p></p></div>"] \o <<"</body></html>">>)
Values_(p, w) ==
  Joined(<<Css_, " p { " \o p \o ": inherit; } .c1 { --x: 3px; " \o p \o ": " \o w \o "; } ">>
         \o Flatten([i \in DOMAIN Words_ |-> [g \in 1..2 |-> ".c" \o ToString(2 * i + g - 1) \o " { " \o p \o ": " \o w \o Gaps_[g] \o Words_[i]
                                                     \o (IF Thorough THEN Gaps_[g] \o w \o Gaps_[3 - g] \o Words_[i] ELSE "") \o "; } "]]))

Core(f) == {i \in DOMAIN AlphaOf(f) : i % 5 = 1}
VARIABLES frame, word
Init == \/ /\ frame \in {Frames[i] : i \in DOMAIN Frames} /\ word = <<>>
           /\ Write(frame, "")
        \/ /\ \E i \in DOMAIN Props_, j \in DOMAIN Words_ : frame = Props_[i] /\ word = <<Words_[j]>>
           /\ Out(Lists(frame, word[1]), Values_(frame, word[1]), "loads")
Free == frame \in {Frames[i] : i \in DOMAIN Frames}
Text_(w) == Joined([i \in DOMAIN w |-> AlphaOf(frame)[w[i]]])
Next == /\ Free /\ Len(word) < 3
        /\ \E i \in DOMAIN AlphaOf(frame) :
             /\ (Len(word) = 2 /\ ~Thorough => i \in Core(frame) /\ word[1] \in Core(frame) /\ word[2] \in Core(frame))
             /\ word' = Append(word, i)
        /\ UNCHANGED frame
        /\ Write(frame, Text_(word'))


=============================================================================
