------------------------------- MODULE JsMany -------------------------------
(***************************************************************************)
(* Programs with many strings: an array that holds some already, calls     *)
(* with many more, each written twice, in one order or the other, some of  *)
(* them among the held ones.  An index has no last digit.                  *)
(***************************************************************************)
EXTENDS JsLexical, FiniteSetsExt, SequencesExt, TLC, Json, CSV, IOUtils

VARIABLE done

Held == {"none", "empty", "one", "9", "99", "130", "260"}
HeldN(h) == CASE h \in {"none", "empty"} -> 0 [] h = "one" -> 1 [] h = "9" -> 9 [] h = "99" -> 99 [] h = "130" -> 130 [] h = "260" -> 260
Counts == {2, 12, 101, 140, 270}
Quotes == {"'", "\""}

Lit(q, k) == <<"Str", q \o "word number " \o ToString(k) \o q>>
P(s) == <<"=", s>>
Seqs(n, F(_)) == FlattenSeq([k \in 1 .. n |-> F(k)])
Array(h, q) ==
    IF h = "none" THEN <<>>
    ELSE << P("var"), <<"Id", "R">>, P("="), P("[") >>
         \o Seqs(HeldN(h), LAMBDA k : (IF k > 1 THEN <<P(",")>> ELSE <<>>) \o <<Lit(q, k)>>) \o << P("]"), P(";") >>
Call(q, k) == << <<"Id", "x">>, P("("), Lit(q, k), P(")"), P(";") >>
(* From `from` on: the strings before it are only held. *)
Calls(n, from, back, q) == Seqs(n, LAMBDA k : Call(q, IF back THEN from + n - k ELSE from + k - 1))

Program(h, n, over, back, q) ==
    LET from == IF over /\ HeldN(h) > 0 THEN (HeldN(h) \div 2) + 1 ELSE HeldN(h) + 1
    IN Array(h, q) \o Calls(n, from, FALSE, q) \o Calls(n, from, back, q)

Item(ts) == LET n == Len(ts) IN
    [t |-> [i \in 1 .. n |-> ts[i][2]], c |-> [i \in 1 .. n |-> ts[i][1]],
     g |-> [i \in 1 .. n + 1 |-> IF i = 1 THEN "any" ELSE IF i = n + 1 THEN "end" ELSE GapKind(ts[i - 1], ts[i], {})]]

Init == done = {}
Emit == \E h \in Held, n \in Counts, over \in BOOLEAN, back \in BOOLEAN, q \in Quotes :
           /\ done = {}
           /\ (over => HeldN(h) > 1) /\ (back => q = "'")
           /\ CSVWrite("%1$s", <<ToJson(Item(Program(h, n, over, back, q)))>>, IOEnv.VF_OUT)
           /\ done' = {<<h, n, over, back, q>>}
Next == Emit
=============================================================================
