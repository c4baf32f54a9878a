------------------------------ MODULE BSelect ------------------------------
(* Selectors over the displayed tree.                                        *)
(* A complex selector is [parts |-> Seq(compound), combs |-> Seq(STRING)],   *)
(* Len(combs) = Len(parts) - 1; a compound is a sequence of simple selectors.*)
EXTENDS BValues

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

AttrMatches(op, actual, v) ==
  CASE op = ""   -> TRUE
    [] op = "="  -> actual = v
    [] op = "~=" -> v \in WordsOf(actual)
    [] op = "|=" -> actual = v \/ StartsWith(actual, v \o "-")
    [] op = "^=" -> StartsWith(actual, v)
    [] op = "$=" -> EndsWith(actual, v)
    [] op = "*=" -> Contains(actual, v)

(* what is above body; it is matched by nothing but `*` *)
Root == [id |-> <<-2>>, k |-> "root", lis |-> FALSE, cl |-> {}, tag |-> "", nk |-> 1, par |-> -1, prev |-> 0, tx |-> "", at |-> <<>>]

Has(n, key) == key \in DOMAIN n.at

MatchSimple(s, n, ps) ==
  CASE s.s = "all"   -> TRUE
    [] s.s = "tag"   -> n.tag = s.n
    [] s.s = "id"    -> Has(n, "id") /\ n.at["id"] = s.n
    [] s.s = "class" -> s.n \in n.cl
    [] s.s = "attr"  -> Has(n, s.n) /\ AttrMatches(s.op, n.at[s.n], s.v)
    [] s.s = "pc"    -> (CASE s.n = "hover"  -> n.id \in ps.hov
                           [] s.n = "active" -> n.id \in ps.act
                           [] s.n = "focus"  -> n.id \in ps.foc
                           [] OTHER -> FALSE)
    [] OTHER -> FALSE

MatchCompound(c, n, ps) == \A i \in DOMAIN c : MatchSimple(c[i], n, ps)

NodeAt(flat, i) == IF i = 0 THEN Root ELSE flat[i]

(* does the selector up to its j-th part match with flat[i] as that part? *)
RECURSIVE MatchUpTo(_, _, _, _, _)
MatchUpTo(sel, j, flat, i, ps) ==
  /\ MatchCompound(sel.parts[j], NodeAt(flat, i), ps)
  /\ \/ j = 1
     \/ /\ j > 1
        /\ LET comb == sel.combs[j - 1]
               n == NodeAt(flat, i)
           IN CASE comb = ">" -> n.par >= 0 /\ MatchUpTo(sel, j - 1, flat, n.par, ps)
                [] comb = "+" -> n.prev > 0 /\ MatchUpTo(sel, j - 1, flat, n.prev, ps)
                [] OTHER -> FALSE     \* not supported: matches nothing

Matches(sels, flat, i, ps) ==
  \E m \in DOMAIN sels : MatchUpTo(sels[m], Len(sels[m].parts), flat, i, ps)
=============================================================================
