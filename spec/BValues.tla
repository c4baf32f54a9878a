------------------------------ MODULE BValues ------------------------------
(* JSON values as the library sees them: evaluation to text and truth, paths *)
(* into values and pipes (transformers).                                     *)
(*                                                                           *)
(* A value is a tagged record:                                               *)
(*   [t |-> "null"]   [t |-> "b", b |-> BOOLEAN]   [t |-> "n", n |-> Int]     *)
(*   [t |-> "d", s |-> "1.5", m |-> 1500]  (a fractional number)             *)
(*   [t |-> "s", s |-> STRING]  [t |-> "a", a |-> Seq(value)]                *)
(*   [t |-> "o", o |-> Seq(<<key, value>>)]                                  *)
(* Numbers in messages may also be [t |-> "f", m |-> thousandths].           *)
EXTENDS Integers, Sequences, TLC

Null == [t |-> "null"]
Str(s) == [t |-> "s", s |-> s]
Num(n) == [t |-> "n", n |-> n]
Bool(b) == [t |-> "b", b |-> b]
Arr(a) == [t |-> "a", a |-> a]
Obj(o) == [t |-> "o", o |-> o]
Milli(m) == [t |-> "f", m |-> m]

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))

EvalString(v) ==
  CASE v.t = "null" -> ""
    [] v.t = "b" -> (IF v.b THEN "true" ELSE "false")
    [] v.t = "n" -> ToString(v.n)
    [] v.t = "d" -> v.s
    [] v.t = "s" -> v.s
    [] v.t = "a" -> "[array]"
    [] v.t = "o" -> "{object}"

EvalBoolean(v) ==
  CASE v.t = "null" -> FALSE
    [] v.t = "b" -> v.b
    [] v.t = "n" -> v.n # 0
    [] v.t = "d" -> v.m # 0
    [] v.t = "s" -> v.s # ""
    [] v.t = "a" -> v.a # <<>>
    [] v.t = "o" -> TRUE

(* one step into a value; anything that is not there is null *)
Step(v, key) ==
  CASE v.t = "o" -> LET hit == {i \in DOMAIN v.o : v.o[i][1] = key}
                    IN IF hit = {} THEN Null ELSE v.o[CHOOSE i \in hit : TRUE][2]
    [] v.t = "a" -> LET hit == {i \in DOMAIN v.a : ToString(i - 1) = key}
                    IN IF hit = {} THEN Null ELSE v.a[CHOOSE i \in hit : TRUE]
    [] OTHER -> Null

RECURSIVE At(_, _)
At(v, path) == IF path = <<>> THEN v ELSE At(Step(v, Head(path)), Tail(path))

Duration(v) ==   \* the built-in pipe: seconds as text, for the numbers used here
  CASE v.t = "n" -> IF v.n >= 0 THEN Str(ToString(v.n) \o (IF v.n = 0 THEN "ns" ELSE "s")) ELSE v
    [] v.t = "d" -> IF v.m < 0 THEN v
                    ELSE IF v.m = 0 THEN Str("0ns")
                    ELSE IF v.m < 1000 THEN Str(ToString(v.m) \o "ms")
                    ELSE IF v.m % 1000 = 0 THEN Str(ToString(v.m \div 1000) \o "s")
                    ELSE Str(v.s \o "s")
    [] OTHER -> v

Pipe(name, v) ==
  CASE name = "not"   -> Bool(~EvalBoolean(v))
    [] name = "str"   -> Str(EvalString(v))
    [] name = "len"   -> (IF v.t = "a" THEN Num(Len(v.a)) ELSE IF v.t = "o" THEN Num(Len(v.o)) ELSE Num(0))
    [] name = "wrap"  -> Str("[" \o EvalString(v) \o "]")
    [] name = "inc"   -> (IF v.t = "n" THEN Num(v.n + 1) ELSE v)
    [] name = "first" -> (IF v.t = "a" THEN (IF v.a = <<>> THEN Null ELSE v.a[1]) ELSE v)
    [] name = "tail"  -> (IF v.t = "a" THEN (IF v.a = <<>> THEN v ELSE Arr(Tail(v.a))) ELSE v)
    [] name = "twice" -> (IF v.t = "a" THEN Arr(v.a \o v.a) ELSE v)
    [] name = "nil"   -> Null
    [] name = "duration" -> Duration(v)
    [] OTHER -> v    \* not registered: ignored

RECURSIVE Piped(_, _)
Piped(v, pipes) == IF pipes = <<>> THEN v ELSE Piped(Pipe(Head(pipes), v), Tail(pipes))

(* the value of a binding: path and pipes *)
Bound(e, val) == Piped(At(val, e.path), e.pipe)

Blank == {" ", "\n", "\t", "\r"}
RECURSIVE Words(_, _, _)
Words(s, from, i) ==   \* words of s, which are separated by whitespace
  IF i > Len(s) THEN {SubSeq(s, from, Len(s))}
  ELSE IF SubSeq(s, i, i) \in Blank THEN {SubSeq(s, from, i - 1)} \cup Words(s, i + 1, i + 1)
  ELSE Words(s, from, i + 1)
WordsOf(s) == Words(s, 1, 1) \ {""}

(* numbers as they appear in messages *)
RECURSIVE Norm(_)
Norm(v) ==
  CASE v.t = "d" -> Milli(v.m)
    [] v.t = "a" -> Arr([i \in DOMAIN v.a |-> Norm(v.a[i])])
    [] v.t = "o" -> Obj([i \in DOMAIN v.o |-> <<v.o[i][1], Norm(v.o[i][2])>>])
    [] OTHER -> v
=============================================================================
