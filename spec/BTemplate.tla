----------------------------- MODULE BTemplate -----------------------------
(* Documents: static expansion of templates, repeats and aliases with        *)
(* lexical scoping (Instantiate), and the displayed tree for a model value   *)
(* (Display), which is a function of the latest value only.                  *)
EXTENDS BValues, FiniteSets

VoidTags == {"img", "input", "area", "base", "br", "col", "command", "embed", "hr",
             "keygen", "link", "meta", "param", "source", "track", "wbr"}

NoneId == <<-1>>

Translate(s) == CASE s = "Hi" -> "Hallo" [] s = "Hi " -> "Hallo " [] s = "Hallo" -> "Twice" [] OTHER -> s

(* ---- scopes: sequences of <<name, path>>, the innermost last ---- *)
Resolve(env, path) ==
  LET hit == {i \in DOMAIN env : env[i][1] = path[1]}
      last == CHOOSE i \in hit : \A j \in hit : j <= i
  IN IF hit = {} THEN path ELSE env[last][2] \o Tail(path)

ResolveE(env, e) == [path |-> Resolve(env, e.path), pipe |-> e.pipe]

(* bindings: [b |-> kind, ...] in the order of the source *)
OfKind(bs, kind) == SelectSeq(bs, LAMBDA x : x.b = kind)

(* `<link href="#id" ...>` stands for the root of the template, the bindings  *)
(* of the link come first                                                    *)
Expand(def, tpls) ==
  IF def.k # "el" THEN def
  ELSE LET hrefs == SelectSeq(def.bs, LAMBDA x : x.b = "none" /\ x.k = "href")
           rest == SelectSeq(def.bs, LAMBDA x : ~(x.b = "none" /\ x.k = "href"))
       IN IF def.tag # "link" \/ hrefs = <<>> THEN def
          ELSE LET root == tpls[hrefs[Len(hrefs)].v]
               IN [root EXCEPT !.bs = rest \o root.bs]

RECURSIVE Aliases(_, _)
Aliases(bs, env) ==
  IF bs = <<>> THEN env
  ELSE Aliases(Tail(bs), Append(env, <<Head(bs).k, Resolve(env, Head(bs).e.path)>>))

Spans(spans, env) ==
  [i \in DOMAIN spans |-> IF spans[i].t = "lit" THEN spans[i]
                          ELSE [t |-> "e", e |-> ResolveE(env, spans[i].e)]]

Always == [c |-> "always"]

RECURSIVE Build(_, _, _, _), Kids(_, _, _, _, _)
Build(def, env, id, tpls) ==
  IF def.k = "tx"
  THEN [k |-> "tx", id |-> id, tag |-> "", bs |-> <<>>, on |-> <<>>, kids |-> <<>>,
        spans |-> [i \in DOMAIN def.spans |->
                     IF def.spans[i].t = "lit" THEN [t |-> "lit", s |-> Translate(def.spans[i].s)]
                     ELSE [t |-> "e", e |-> ResolveE(env, def.spans[i].e)]]]
  ELSE LET attr(x) == CASE x.b = "none" -> [b |-> "none", k |-> x.k, v |-> x.v]
                        [] x.b = "tag" -> [b |-> "tag", k |-> x.k, e |-> ResolveE(env, x.e)]
                        [] x.b = "attr" -> [b |-> "attr", k |-> x.k, spans |-> Spans(x.spans, env)]
           arg(x) == IF x.t = "e" THEN [t |-> "e", e |-> ResolveE(env, x.e)] ELSE x
           attrs == SelectSeq(def.bs, LAMBDA x : x.b \in {"none", "tag", "attr"})
           ons == OfKind(def.bs, "on")
       IN [k |-> "el", id |-> id, tag |-> def.tag, spans |-> <<>>,
           bs |-> [i \in DOMAIN attrs |-> attr(attrs[i])],
           on |-> [i \in DOMAIN ons |-> [k |-> ons[i].k,
                       args |-> [j \in DOMAIN ons[i].args |-> arg(ons[i].args[j])]]],
           kids |-> IF def.tag = "img"
                    THEN << [when |-> Always, n |-> [k |-> "bg", id |-> id \o <<1, 0>>, tag |-> "",
                              bs |-> <<>>, on |-> <<>>, kids |-> <<>>, spans |-> <<>>]] >>
                    ELSE IF def.tag \in VoidTags THEN <<>>
                    ELSE Kids(def.kids, 1, env, id, tpls)]

Kids(defs, j, env, id, tpls) ==
  IF j > Len(defs) THEN <<>>
  ELSE LET def == Expand(defs[j], tpls)
           bs == IF def.k = "el" THEN def.bs ELSE <<>>
           inner == Aliases(OfKind(bs, "alias"), env)
           vis == OfKind(bs, "vis")
           rep == OfKind(bs, "repeat")
           here ==
             IF vis # <<>>
             THEN << [when |-> [c |-> "vis", pos |-> vis[1].pos, e |-> ResolveE(inner, vis[1].e)],
                      n |-> Build(def, inner, id \o <<j, 0>>, tpls)] >>
             ELSE IF rep # <<>>
             THEN LET list == ResolveE(inner, rep[1].e)
                  IN [i \in 1..rep[1].n |->
                        [when |-> [c |-> "rep", i |-> i, e |-> list],
                         n |-> Build(def, Append(inner, <<rep[1].k, list.path \o <<ToString(i - 1)>> >>),
                                     id \o <<j, i>>, tpls)]]
             ELSE << [when |-> Always, n |-> Build(def, inner, id \o <<j, 0>>, tpls)] >>
       IN here \o Kids(defs, j + 1, env, id, tpls)

TplMap(tpls) == [name \in {tpls[i].id : i \in DOMAIN tpls} |->
                   (CHOOSE i \in DOMAIN tpls : tpls[i].id = name
                      /\ \A h \in DOMAIN tpls : tpls[h].id = name => h <= i)]

Instantiate(doc) ==
  LET m == TplMap(doc.tpls)
      tpls == [name \in DOMAIN m |-> doc.tpls[m[name]].root]
  IN Build(doc.body, <<>>, <<>>, tpls)

(* all nodes of an instance, displayed or not *)
RECURSIVE NodesOf(_), NodesOfKids(_)
NodesOf(n) == <<n>> \o NodesOfKids(n.kids)
NodesOfKids(ks) == IF ks = <<>> THEN <<>> ELSE NodesOf(Head(ks).n) \o NodesOfKids(Tail(ks))

ById(inst) == LET ns == NodesOf(inst)
              IN [id \in {ns[i].id : i \in DOMAIN ns} |-> ns[CHOOSE i \in DOMAIN ns : ns[i].id = id]]

(* ---- display ---- *)
Shown(when, val) ==
  CASE when.c = "always" -> TRUE
    [] when.c = "vis" -> EvalBoolean(Bound(when.e, val)) = when.pos
    [] when.c = "rep" -> LET list == Bound(when.e, val) IN list.t = "a" /\ when.i <= Len(list.a)

TextOf(spans, val) ==
  Join([i \in DOMAIN spans |-> IF spans[i].t = "lit" THEN spans[i].s ELSE EvalString(Bound(spans[i].e, val))])

(* attributes as a function; later bindings of the same name win *)
RECURSIVE AttrsOf(_, _)
AttrsOf(bs, val) ==
  IF bs = <<>> THEN <<>>
  ELSE LET x == bs[Len(bs)]
           rest == AttrsOf(SubSeq(bs, 1, Len(bs) - 1), val)
       IN CASE x.b = "none" -> (x.k :> x.v) @@ rest
            [] x.b = "attr" -> (x.k :> TextOf(x.spans, val)) @@ rest
            [] x.b = "tag" -> IF EvalBoolean(Bound(x.e, val)) THEN (x.k :> x.k) @@ rest
                              ELSE [key \in DOMAIN rest \ {x.k} |-> rest[key]]

(* The displayed tree in pre-order: par is the index of the parent (0 for    *)
(* body) and prev the index of the preceding displayed sibling (0 if first). *)
RECURSIVE Flat(_, _, _, _, _), FlatKids(_, _, _, _, _)
Flat(n, val, par, prev, acc) ==
  LET at == AttrsOf(n.bs, val)
      kids == SelectSeq(n.kids, LAMBDA c : Shown(c.when, val))
      rec == [id |-> n.id, k |-> n.k, tag |-> n.tag, lis |-> n.on # <<>>, nk |-> Len(kids), par |-> par, prev |-> prev,
              tx |-> IF n.k = "tx" THEN TextOf(n.spans, val) ELSE "",
              at |-> at,
              cl |-> IF "class" \in DOMAIN at THEN WordsOf(at["class"]) ELSE {}]
  IN FlatKids(kids, val, Len(acc) + 1, 0, Append(acc, rec))
FlatKids(ks, val, par, prev, acc) ==
  IF ks = <<>> THEN acc
  ELSE FlatKids(Tail(ks), val, par, Len(acc) + 1, Flat(Head(ks).n, val, par, prev, acc))

Display(inst, val) == Flat(inst, val, 0, 0, <<>>)
=============================================================================
