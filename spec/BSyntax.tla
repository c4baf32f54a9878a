------------------------------ MODULE BSyntax ------------------------------
(* The lexical structure of stylesheets and documents: what is left of a     *)
(* text when whitespace and comments are taken away where they say nothing.  *)
EXTENDS Integers, Sequences

Space_ == {" ", "\n", "\t", "\r"}
Ch(s, i) == SubSeq(s, i, i)
Has_(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
Put(out, s) == IF s = "" THEN out ELSE Append(out, s)
RECURSIVE After(_, _, _)     \* the first place behind p from i on
After(s, i, p) == IF i > Len(s) THEN i ELSE IF Has_(s, i, p) THEN i + Len(p) ELSE After(s, i + 1, p)
RECURSIVE Squeeze(_)         \* without any whitespace
Squeeze(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in Space_ THEN "" ELSE Ch(s, 1)) \o Squeeze(SubSeq(s, 2, Len(s)))

(* ---- stylesheets: words, strings and signs ---- *)
Signs == {"{", "}", ";", ":", ",", "(", ")", ">", "+", "~", "[", "]", "=", "*"}
RECURSIVE LexC(_, _, _, _)
LexC(s, i, cur, out) ==
  IF i > Len(s) THEN Put(out, cur)
  ELSE IF Ch(s, i) = "/" /\ Has_(s, i, "/*") THEN LexC(s, After(s, i + 2, "*/"), "", Put(out, cur))
  ELSE LET c == Ch(s, i) IN
    IF c \in Space_ THEN LexC(s, i + 1, "", Put(out, cur))
    ELSE IF c = "\"" THEN LET j == After(s, i + 1, "\"") IN LexC(s, j, "", Append(Put(out, cur), SubSeq(s, i, j - 1)))
    ELSE IF c \in Signs THEN LexC(s, i + 1, "", Append(Put(out, cur), c))
    ELSE LexC(s, i + 1, cur \o c, out)
LexCss(s) == LexC(s, 1, "", <<>>)

(* ---- documents ---- *)
(* a text: a line break with the whitespace around it is one space, nothing  *)
(* at the end of an element; whitespace within braces says nothing           *)
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Space_ THEN RunEnd(s, i + 1) ELSE i
Breaks(s, i, j) == \E k \in i..(j - 1) : Ch(s, k) = "\n"
RECURSIVE TextOf(_, _, _)
TextOf(s, i, last) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = "{" THEN LET j == After(s, i, "}") IN Squeeze(SubSeq(s, i, j - 1)) \o TextOf(s, j, last)
  ELSE IF Ch(s, i) \in Space_ THEN
    LET j == RunEnd(s, i) IN
    (IF ~Breaks(s, i, j) THEN SubSeq(s, i, j - 1) ELSE IF j > Len(s) /\ last THEN "" ELSE " ") \o TextOf(s, j, last)
  ELSE Ch(s, i) \o TextOf(s, i + 1, last)
NormText(s, last) == TextOf(s, RunEnd(s, 1), last)

(* the value of an attribute of which the name begins with c *)
RECURSIVE Braces(_, _)
Braces(s, i) == IF i > Len(s) THEN "" ELSE IF Ch(s, i) = "{" THEN LET j == After(s, i, "}") IN Squeeze(SubSeq(s, i, j - 1)) \o Braces(s, j)
                ELSE Ch(s, i) \o Braces(s, i + 1)
RECURSIVE Parts(_, _, _, _)      \* words, and braces
Parts(s, i, cur, out) ==
  IF i > Len(s) THEN Put(out, cur)
  ELSE IF Ch(s, i) \in Space_ THEN Parts(s, i + 1, "", Put(out, cur))
  ELSE IF Ch(s, i) = "{" THEN LET j == After(s, i, "}") IN Parts(s, j, "", Append(Put(out, cur), Squeeze(SubSeq(s, i, j - 1))))
  ELSE Parts(s, i + 1, cur \o Ch(s, i), out)
ValueOf(c, s) == IF c = "@" THEN <<Braces(s, 1)>> ELSE IF c \in {"#", "+", "*", "^", "?", "!"} THEN Parts(s, 1, "", <<>>) ELSE <<s>>

RECURSIVE LexT(_, _, _), LexH(_, _, _, _)
(* between tags, from i on: texts *)
LexT(s, i, out) ==
  LET j == RunEnd(s, i) IN
  IF j > Len(s) THEN out
  ELSE IF Ch(s, j) = "<" /\ Has_(s, j, "<!--") THEN LexT(s, After(s, j + 4, "-->"), out)
  ELSE IF Ch(s, j) = "<" THEN IF Has_(s, j, "</") THEN LexH(s, j + 2, "", Append(out, "</")) ELSE LexH(s, j + 1, "", Append(out, "<"))
  ELSE LET k == After(s, j, "<") - 1
           raw == SubSeq(s, j, k - 1)
           \* what follows, when notes are taken away
           Next_[n \in 0..Len(s)] == LET m == RunEnd(s, n) IN IF Has_(s, m, "<!--") THEN Next_[After(s, m + 4, "-->")] ELSE m
       IN LexT(s, k, Append(out, "text:" \o NormText(raw, Has_(s, Next_[k], "</"))))
(* within a tag *)
LexH(s, i, cur, out) ==
  LET c == Ch(s, i) IN
  IF c \in Space_ THEN LexH(s, i + 1, "", Put(out, cur))
  ELSE IF c = ">" THEN LexT(s, i + 1, Append(Put(out, cur), ">"))
  ELSE IF c = "/" THEN LexH(s, i + 1, "", Put(out, cur))
  ELSE IF c = "=" THEN LexH(s, i + 1, "", Append(Put(out, cur), "="))
  ELSE IF c = "\"" THEN
    LET j == After(s, i + 1, "\"") name == out[Len(out) - 1]
    IN LexH(s, j, "", out \o ValueOf(Ch(name, 1), SubSeq(s, i + 1, j - 2)))
  ELSE LexH(s, i + 1, cur \o c, out)
LexHtml(s) == LexT(s, 1, <<>>)
=============================================================================
