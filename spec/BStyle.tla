------------------------------- MODULE BStyle -------------------------------
(* Styles of the whole displayed tree in one frame.                          *)
EXTENDS BTemplate, BAnim

InlineDecls(n, inl) ==    \* inl: Seq([s |-> text of style attribute, ds |-> declarations])
  IF "style" \notin DOMAIN n.at THEN <<>>
  ELSE LET hit == {i \in DOMAIN inl : inl[i].s = n.at["style"]}
       IN IF hit = {} THEN <<>> ELSE inl[CHOOSE i \in hit : TRUE].ds

MotionOf(motion, id) == IF id \in DOMAIN motion THEN motion[id] ELSE NoMotion

(* result of a node: style, variables and motion *)
TextStyle(parent) ==
  IF "visibility" \in DOMAIN parent.style
  THEN ("visibility" :> parent.style["visibility"]) @@ InheritedOf(parent.style)
  ELSE InheritedOf(parent.style)

ImageStyle(parent, src) ==
  ("backgrounds" :> <<<<src, <<0, 0, 0, 0>>, 0, 0>>>>) @@ ("width" :> <<"pct", 1000>>) @@ ("height" :> <<"pct", 1000>>)
  @@ ("min-width" :> <<"pct", 1000>>) @@ ("min-height" :> <<"pct", 1000>>) @@ TextStyle(parent)

RootResult == [style |-> <<>>, vars |-> <<>>]

StyleOf(doc, flat, i, parent, ps, motion, step) ==
  LET n == flat[i]
      cx == [vp |-> step.vp,
             pfs |-> Sty(parent.style, "font-size"),
             pcolor |-> IF n.par = 0 THEN <<0, 0, 0, 0>> ELSE Sty(parent.style, "color")]
  IN CASE n.k = "tx" -> [id |-> n.id, style |-> TextStyle(parent), vars |-> <<>>, m |-> NoMotion]
       [] n.k = "bg" -> [id |-> n.id, vars |-> <<>>, m |-> NoMotion,
                         style |-> ImageStyle(parent, IF Has(flat[n.par], "src") THEN flat[n.par].at["src"] ELSE "")]
       [] OTHER ->
          LET acc1 == Rules(doc.rules, flat, i, ps, [vars |-> parent.vars, cs |-> <<>>])
              acc2 == Block(InlineDecls(n, doc.inl), acc1)
              f == Frame(MotionOf(motion, n.id), acc2.cs, acc2.vars, doc.anims, step.dt)
          IN [id |-> n.id, vars |-> acc2.vars, m |-> f.m,
              style |-> Applied(f.cs, InheritedOf(parent.style), cx)]

RECURSIVE StyleAll(_, _, _, _, _, _)
StyleAll(doc, flat, ps, motion, step, acc) ==
  LET i == Len(acc) + 1
  IN IF i > Len(flat) THEN acc
     ELSE LET parent == IF flat[i].par = 0 THEN RootResult ELSE acc[flat[i].par]
          IN StyleAll(doc, flat, ps, motion, step,
                      Append(acc, StyleOf(doc, flat, i, parent, ps, motion, step)))

Styles(doc, flat, ps, motion, step) == StyleAll(doc, flat, ps, motion, step, <<>>)

NextMotion(motion, results) ==
  LET moving == {i \in DOMAIN results : results[i].m # NoMotion}
      rest == {i \in DOMAIN results : results[i].m = NoMotion}
      still == IF motion = <<>> THEN {} ELSE {results[i].id : i \in rest}
      now == [id \in {results[i].id : i \in moving} |->
                results[CHOOSE i \in moving : results[i].id = id].m]
  IN now @@ [id \in DOMAIN motion \ still |-> motion[id]]
=============================================================================
