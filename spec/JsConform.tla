----------------------------- MODULE JsConform -----------------------------
(***************************************************************************)
(* The relation between a JavaScript program (its tokens and the kinds of  *)
(* its gaps) and what minifying any layout of it may give.                 *)
(***************************************************************************)
EXTENDS JsLexical, Contract, TLC

(* --- the form of a token in the output: itself, but for the order of the flags of a regex --- *)
FlagChars == {"d", "g", "i", "m", "s", "u", "v", "y"}
LastSlash(x) == CHOOSE i \in 1 .. Len(x) : /\ SubSeq(x, i, i) = "/"
                                           /\ \A j \in i + 1 .. Len(x) : SubSeq(x, j, j) # "/"
RECURSIVE FlagEnd(_, _)
FlagEnd(s, p) == IF p <= Len(s) /\ SubSeq(s, p, p) \in FlagChars THEN FlagEnd(s, p + 1) ELSE p
CharSet(s) == {SubSeq(s, i, i) : i \in 1 .. Len(s)}

MatchTok(tok, out, p) ==
    LET x == tok[2] IN
    IF IsRegex(tok)
    THEN LET k == LastSlash(x)
             body == SubSeq(x, 1, k)
             e == FlagEnd(out, p + k)
         IN IF IsPrefixAt(out, p, body) /\ CharSet(Between(out, p + k, e)) = CharSet(Between(x, k + 1, Len(x) + 1))
            THEN e ELSE 0
    ELSE IF IsPrefixAt(out, p, x) THEN p + Len(x) ELSE 0

(* --- the separations --- *)
(* The kind of a gap says whether its tokens must not touch (JsLexical!NeedSep). *)
NoNl(kind) == kind \in {"nonl", "neednonl", "slashnonl"}
Need(kind) == kind \in {"need", "neednonl", "needslash"}
SepOkJs(toks, g, i, sep) ==
    IF i = 1 \/ i = Len(toks) + 1 THEN TRUE
    ELSE /\ (sep = "" => ~Need(g[i]))
         /\ (NoNl(g[i]) => ~HasChar(sep, {"\n", "\r"}))

WalkFrom(toks, g, out, from) ==
    Walk(Len(toks), out, from,
         LAMBDA i, o, p : MatchTok(toks[i], o, p),
         LAMBDA i, sep : IF i = from THEN TRUE ELSE SepOkJs(toks, g, i, sep))

(* Empty statements that lead the program may be dropped. *)
RECURSIVE LeadingSemi(_, _)
LeadingSemi(toks, i) == IF i <= Len(toks) /\ toks[i][2] = ";" THEN LeadingSemi(toks, i + 1) ELSE i - 1

JsWalk(toks, g, out) ==
    LET k == LeadingSemi(toks, 1)
        ws == {WalkFrom(toks, g, out, f) : f \in 1 .. k + 1}
    IN IF \E w \in ws : w.why = "" THEN CHOOSE w \in ws : w.why = ""
       ELSE CHOOSE w \in ws : \A w2 \in ws : w2.i <= w.i

(* --- literals in order, whatever is around them --- *)
IsLiteral(tok) == tok[1] \in {"Str", "Tmpl", "Rx", "Num"}
RECURSIVE FindTok(_, _, _)
FindTok(tok, out, p) == IF p > Len(out) THEN 0
                        ELSE IF MatchTok(tok, out, p) # 0 THEN MatchTok(tok, out, p)
                        ELSE FindTok(tok, out, p + 1)
LiteralsInOrder(toks, out) ==
    0 # FoldLeft(LAMBDA p, tok : IF p = 0 THEN 0 ELSE FindTok(tok, out, p), 1,
                 SelectSeq(toks, LAMBDA tok : IsLiteral(tok)))

(***************************************************************************)
(* C04: every layout of the program gives its tokens.                      *)
(***************************************************************************)
C04Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C04", run.st>>}
    ELSE LET w == JsWalk(toks, rec.g, run.out)
         IN Bad(w.why # "", <<"C04", w.why, w.i>>)

(***************************************************************************)
(* C05: the literals are there, verbatim and in order; where the walk goes *)
(* wrong, it is not in a literal.                                          *)
(***************************************************************************)
C05Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C05", run.st>>}
    ELSE LET w == JsWalk(toks, rec.g, run.out)
         IN IF w.why = "" THEN {}
            ELSE IF w.why = "lexeme" /\ w.i <= Len(toks) /\ IsLiteral(toks[w.i]) THEN {<<"C05", "literal", w.i>>}
            ELSE IF w.why \in {"lexeme", "more"} /\ w.i > 1 /\ IsLiteral(toks[w.i - 1]) /\ ~IsPunct(toks[w.i - 1])
                    /\ ~(w.i <= Len(toks) /\ HasText(SubSeq(run.out, w.p, Len(run.out)), toks[w.i][2]))
                 THEN {<<"C05", "after literal", w.i - 1>>}
            ELSE Bad(~LiteralsInOrder(toks, run.out), <<"C05", "literal", 0>>)

(***************************************************************************)
(* C06: a layout with comments gives the tokens and licences whenever the  *)
(* same layout with whitespace in their place does (pout), and the same    *)
(* text.                                                                   *)
(***************************************************************************)
NoLic(rec) == SelectSeq([i \in 1 .. Len(rec.t) |-> i], LAMBDA i : rec.c[i] # "Lic")
Licences(toks) == SelectSeq(toks, LAMBDA tok : IsLic(tok))
C06Run(rec, toks, run) ==
    IF run.pst # "ok" THEN Bad(run.st # "ok" /\ run.st # run.pst, <<"C06", run.st>>)
    ELSE IF run.st # "ok" THEN {<<"C06", run.st>>}
    ELSE LET p == JsWalk(toks, rec.g, run.pout)
             w == JsWalk(toks, rec.g, run.out)
         IN IF p.why # ""
            THEN \* wrong without any comment: only the licences are judged
                 Bad(w.why = "lexeme" /\ w.i <= Len(toks) /\ IsLic(toks[w.i]), <<"C06", "licence", w.i>>)
            ELSE Bad(w.why # "", <<"C06", w.why, w.i>>)

(***************************************************************************)
(* C07: all layouts give the same text, which minifying leaves alone, and  *)
(* which has no wide separation.                                           *)
(***************************************************************************)
(* Private names, and a number followed by a dot, may or may not be kept apart from what is before. *)
C07Scope(toks) == \A i \in 2 .. Len(toks) :
    /\ ~(First(toks[i][2]) = "#")
    /\ ~(toks[i][2] = "." /\ First(toks[i - 1][2]) \in Digits \cup {"."} /\ ~IsPunct(toks[i - 1]))
C07Rec(rec, toks) == IF ~C07Scope(toks) THEN {} ELSE
    LET runs == rec.runs
        oks == {i \in 1 .. Len(runs) : runs[i].st = "ok"}
    IN Bad(\E i \in 1 .. Len(runs) : runs[i].st # runs[1].st, <<"C07", "status">>)
       \cup Bad(Cardinality({runs[i].out : i \in oks}) > 1, <<"C07", "layout">>)
       \cup Bad(\E i \in oks : runs[i].re # runs[i].out \/ runs[i].rst # "ok", <<"C07", "again">>)
       \cup Bad(\E i \in oks : LET w == JsWalk(toks, rec.g, runs[i].out) IN w.why = "" /\ w.wide, <<"C07", "wide">>)

=============================================================================
