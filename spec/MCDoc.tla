-------------------------------- MODULE MCDoc --------------------------------
(* What the models (MC*.tla) have in common: building documents, printing    *)
(* the scenarios which are replayed in the library, and tours.               *)
EXTENDS Bumaga, Json, IOUtils

Thorough == IOEnv.TIER = "thorough"

(* ---- documents ---- *)
El(tag, bs, kids) == [k |-> "el", tag |-> tag, bs |-> bs, kids |-> kids]
Lit(s) == [t |-> "lit", s |-> s]
Ex(path, pipe) == [path |-> path, pipe |-> pipe]
Sp(path) == [t |-> "e", e |-> Ex(path, <<>>)]
Tx(spans) == [k |-> "tx", spans |-> spans]
At_(k, v) == [b |-> "none", k |-> k, v |-> v]
Bd(k, spans) == [b |-> "attr", k |-> k, spans |-> spans]
Fl(k, path) == [b |-> "tag", k |-> k, e |-> Ex(path, <<>>)]
Vis(pos, path) == [b |-> "vis", pos |-> pos, e |-> Ex(path, <<>>)]
Rep(k, n, path) == [b |-> "repeat", k |-> k, n |-> n, e |-> Ex(path, <<>>)]
Ali(k, path) == [b |-> "alias", k |-> k, e |-> Ex(path, <<>>)]
On(k, args) == [b |-> "on", k |-> k, args |-> args]
Key_(v) == [t |-> "key", v |-> v]
Body(kids) == El("body", <<>>, kids)

Cls(n) == [s |-> "class", n |-> n]
Tag(n) == [s |-> "tag", n |-> n]
Pc(n) == [s |-> "pc", n |-> n]
Star == [s |-> "all"]
One(c) == [parts |-> <<c>>, combs |-> <<>>]      \* c: a sequence of simple selectors
Rule(sels, ds) == [sels |-> sels, ds |-> ds]
Decl(p, ts) == [p |-> p, v |-> <<ts>>]
PxT(n) == [t |-> "px", n |-> n * 1000]
NumT(m) == [t |-> "num", n |-> m]
TimeT(n) == [t |-> "time", n |-> n]
ColT(r, g, b) == [t |-> "col", c |-> <<r, g, b, 255>>]
VarT(s) == [t |-> "var", s |-> s]

Doc(body, rules) == [tpls |-> <<>>, body |-> body, rules |-> rules, anims |-> <<>>, inl |-> <<>>]

Rec(pairs) == Obj(pairs)
St(val, dt, evs) == [value |-> val, dt |-> dt, vp |-> <<800, 600>>, ev |-> evs]

Emit_(doc, steps) == PrintT("##" \o ToJson([doc |-> doc, steps |-> steps]))

(* ---- sequences ---- *)
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

(* 1..n so that every i is followed by every j, each pair once:              *)
(* 1 1 | 2 1.. : for every i: i i, then i j for all j < i, back and forth    *)
RECURSIVE Row(_, _)
Row(i, j) == IF j >= i THEN <<>> ELSE <<i, j>> \o Row(i, j + 1)
RECURSIVE Tour(_)
Tour(n) == IF n = 0 THEN <<>> ELSE Tour(n - 1) \o <<n>> \o Row(n, 1) \o <<n>>
=============================================================================
