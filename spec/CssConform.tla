----------------------------- MODULE CssConform -----------------------------
(***************************************************************************)
(* The relation between a style sheet (its components, the kinds of its    *)
(* gaps and the regions it is made of) and what minifying any layout of it *)
(* may give.                                                               *)
(***************************************************************************)
EXTENDS Contract, TLC

IsLic(tok) == tok[1] = "Lic"

(* A licence is printed as /*!...*/ whatever it started with. *)
LicText(x) == "/*!" \o SubSeq(x, 4, Len(x))
MatchCss(tok, out, p) ==
    LET x == IF IsLic(tok) THEN LicText(tok[2]) ELSE tok[2]
    IN IF IsPrefixAt(out, p, x) THEN p + Len(x) ELSE 0

Touching == {"none", "glue"}
Apart == {"w", "sep", "wstrict"}
SepOkCss(toks, g, i, sep) ==
    IF i = 1 \/ i = Len(toks) + 1 \/ IsLic(toks[i]) \/ IsLic(toks[i - 1]) THEN TRUE
    ELSE /\ (g[i] \in Touching => sep = "")
         /\ (g[i] \in Apart => sep # "")

CssWalk(toks, g, out) ==
    Walk(Len(toks), out, 1,
         LAMBDA i, o, p : MatchCss(toks[i], o, p),
         LAMBDA i, sep : SepOkCss(toks, g, i, sep))

Region(rec, i) == rec.r[IF i > Len(rec.r) THEN Len(rec.r) ELSE i]

(* C09 / C10: the components are there, touching and apart as in the source; the first deviation
   is charged to the region where it is. *)
InRegion(prop, rec, toks, run, region) ==
    IF run.st # "ok" THEN {<<prop, run.st>>}
    ELSE LET w == CssWalk(toks, rec.g, run.out)
         IN Bad(w.why # "" /\ (Region(rec, w.i) = region \/ w.i > Len(toks)), <<prop, w.why, w.i>>)
C09Run(rec, toks, run) == InRegion("C09", rec, toks, run, "sel")
C10Run(rec, toks, run) == InRegion("C10", rec, toks, run, "decl")

(* C11: a layout with comments gives the components and licences whenever the same layout with
   whitespace in place of comments does (pout). *)
C11Run(rec, toks, run) ==
    IF run.pst # "ok" THEN Bad(run.st # "ok" /\ run.st # run.pst, <<"C11", run.st>>)
    ELSE IF run.st # "ok" THEN {<<"C11", run.st>>}
    ELSE LET p == CssWalk(toks, rec.g, run.pout)
             w == CssWalk(toks, rec.g, run.out)
         IN IF p.why # ""
            THEN Bad(w.why = "lexeme" /\ w.i <= Len(toks) /\ IsLic(toks[w.i]), <<"C11", "licence", w.i>>)
            ELSE Bad(w.why # "", <<"C11", w.why, w.i>>)

(* C13: all layouts give the same text, which minifying leaves alone, and which has no wide
   separation. *)
C13Rec(rec, toks) ==
    LET runs == rec.runs
        oks == {i \in 1 .. Len(runs) : runs[i].st = "ok"}
    IN Bad(\E i \in 1 .. Len(runs) : runs[i].st # runs[1].st, <<"C13", "status">>)
       \cup Bad(Cardinality({runs[i].out : i \in oks}) > 1, <<"C13", "layout">>)
       \cup Bad(\E i \in oks : runs[i].re # runs[i].out \/ runs[i].rst # "ok", <<"C13", "again">>)
       \cup Bad(\E i \in oks : LET w == CssWalk(toks, rec.g, runs[i].out) IN w.why = "" /\ w.wide, <<"C13", "wide">>)
=============================================================================
