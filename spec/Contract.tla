----------------------------- MODULE Contract -----------------------------
(***************************************************************************)
(* What a minified text may be, given the lexemes of its source: the       *)
(* lexemes, in order, each in its own form, with allowed separations       *)
(* before, between and after them.  Walk follows the text and returns      *)
(* where it stops being so.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

CWs == {" ", "\t", "\n", "\r", "\f"}

(* The part of s of length n at position p ("" when there is not that much). *)
At(s, p, n) == IF p + n - 1 > Len(s) THEN "" ELSE SubSeq(s, p, p + n - 1)

IsPrefixAt(s, p, x) == At(s, p, Len(x)) = x

(* First position from p on that is not whitespace. *)
RECURSIVE SkipWs(_, _)
SkipWs(s, p) == IF p <= Len(s) /\ SubSeq(s, p, p) \in CWs THEN SkipWs(s, p + 1) ELSE p

Between(s, p, q) == IF q <= p THEN "" ELSE SubSeq(s, p, q - 1)

HasChar(s, cs) == \E i \in 1 .. Len(s) : SubSeq(s, i, i) \in cs

HasText(s, x) == \E i \in 1 .. Len(s) : IsPrefixAt(s, i, x)

(* Walk state: i = next lexeme, p = next position, why = "" as long as all is well, seps = longest
   separation so far. *)
Walked(n, p) == [i |-> n, p |-> p, why |-> "", wide |-> FALSE]

(* n lexemes; Match(i, out, p): the end of lexeme i if it is at p in out, else 0; SepOk(i, sep):
   whether sep may stand before lexeme i (i = n + 1: at the end). *)
Walk(n, out, from, Match(_, _, _), SepOk(_, _)) ==
    LET Step(st, i) ==
            IF st.why # "" THEN st
            ELSE LET q == SkipWs(out, st.p)
                     sep == Between(out, st.p, q)
                     e == Match(i, out, q)
                 IN IF e = 0 THEN [st EXCEPT !.i = i, !.p = q, !.why = "lexeme"]
                    ELSE IF ~SepOk(i, sep) THEN [st EXCEPT !.i = i, !.p = q, !.why = "separation"]
                    ELSE [st EXCEPT !.i = i, !.p = e, !.wide = @ \/ Len(sep) > 1]
        last == FoldLeft(Step, Walked(0, 1), [k \in 1 .. n - from + 1 |-> k + from - 1])
        q == SkipWs(out, last.p)
        sep == Between(out, last.p, q)
    IN IF last.why # "" THEN last
       ELSE IF q <= Len(out) THEN [last EXCEPT !.i = n + 1, !.p = q, !.why = "more"]
       ELSE IF ~SepOk(n + 1, sep) THEN [last EXCEPT !.i = n + 1, !.p = q, !.why = "separation"]
       ELSE [last EXCEPT !.i = n + 1, !.wide = @ \/ Len(sep) > 1]

Bad(cond, what) == IF cond THEN {what} ELSE {}

Toks(rec) == [i \in 1 .. Len(rec.t) |-> <<rec.c[i], rec.t[i]>>]
PerRun(rec, toks, F(_, _, _)) ==
    UNION {F(rec, toks, rec.runs[i]) : i \in 1 .. Len(rec.runs)}

(* --- the harness itself: the layouts must be ones the gap kinds allow --- *)
SetOf(seq) == {seq[k] : k \in 1 .. Len(seq)}
KindSets(lay) == [k \in DOMAIN lay.kinds |->
    [min |-> lay.kinds[k].min, atoms |-> SetOf(lay.kinds[k].atoms), first |-> SetOf(lay.kinds[k].first),
     last |-> IF "last" \in DOMAIN lay.kinds[k] THEN SetOf(lay.kinds[k].last) ELSE {}]]
LayoutOk(kinds, rec) ==
    \A r \in 1 .. Len(rec.runs) :
      LET l == rec.runs[r].l IN
      /\ Len(l) = Len(rec.t) + 1
      /\ \A i \in 1 .. Len(l) :
          LET gap == l[i]
              kind == kinds[rec.g[i]]
          IN IF gap = <<>> THEN kind.min = 0
             ELSE /\ Len(gap) >= kind.min
                  /\ \A j \in 1 .. Len(gap) : gap[j] \in kind.atoms \/ (j = Len(gap) /\ gap[j] \in kind.last)
                  /\ kind.first = {} \/ gap[1] \in kind.first
=============================================================================
