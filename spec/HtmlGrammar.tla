---------------------------- MODULE HtmlGrammar ----------------------------
(***************************************************************************)
(* HTML documents as the derivations of a push-down machine (Grammar).     *)
(* Pieces: starts of tags (TO, VO, ...), attribute names, =, values, ends  *)
(* of tags, closing tags, optional tags, words, conditional comments.      *)
(* Gaps: whitespace and ordinary comments between pieces, and              *)
(*   %a  whitespace between attributes        %e  none or some around =    *)
(*   %t  none or some before the end of a tag %n  nothing                  *)
(* Inside scripts and conditional comments there is only whitespace.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES todo, toks, flags, flag, fuel

LexData == JsonDeserialize("lex/html.json")
StartSym == IOEnv.VF_START
Exh == IOEnv.VF_MODE = "bfs"

P == [
  Doc |-> << <<"Items">>, <<"DT", "Items">>, <<"DT", "<html", "Attrs", "%t", ">", "<head>", "Items", "</head>", "<body>", "Items", "</body>", "</html>">>, <<"Items">>, <<"Items">> >>,
  Items |-> << <<"Item">>, <<"Item", "Items">>, <<"Item", "Items">>, <<"Item", "Item">>, <<"Item", "Item", "Items">> >>,
  Item |-> << <<"W">>, <<"W", "W">>, <<"Elem">>, <<"Elem">>, <<"Elem">>, <<"OT">>, <<"OT">>, <<"Void">>, <<"Void">>, <<"Cond">>, <<"Script">>, <<"Style">>, <<"W", "W", "W">>,
              <<"TOI", "%a", "Attr", "%t", ">">>, <<"TC">>, <<"CW">> >>,
  Elem |-> << <<"TO", "%t", ">", "Items", "TC">>, <<"TO", "Attrs", "%t", ">", "Items", "TC">>, <<"TO", "Attrs", "%t", ">", "W", "TC">>, <<"TO", "Attrs", "%t", ">", "TC">>, <<"TO", "Attrs", "%t", ">", "Items", "OT">>, <<"TO", "%t", ">", "W", "TC">> >>,
  Void |-> << <<"VO", "Attrs", "%t", "TE">>, <<"VO", "%t", "TE">>, <<"VO", "Attrs", "%a", "TN", "%e", "=", "%e", "TY", "Attrs", "%t", ">">>, <<"VO", "Attrs", "%t", ">">> >>,
  Cond |-> << <<"CCO", "CItems", "CCC">>, <<"CCO", "CItems", "CCC">> >>,
  CItems |-> << <<"W">>, <<"TO", "Attrs", "%t", ">", "W", "TC">>, <<"W", "OT", "W">>, <<"TO", "%t", ">", "CItems", "TC">>, <<"W", "CItems">> >>,
  Script |-> << <<"<script", "%t", ">", "Code", "</script>">>, <<"<script", "SAttrs", "%t", ">", "Code", "</script>">>, <<"<script", "SAttrs", "%t", ">", "</script>">> >>,
  Style |-> << <<"<style", "%t", ">", "Code", "</style>">>, <<"<style", "SAttrs", "%t", ">", "Code", "</style>">> >>,
  Code |-> << <<"SC">>, <<"SC", "SC">>, <<"SC", "Code">> >>,
  SAttrs |-> << <<"%a", "TN", "%e", "=", "%e", "TY">>, <<"Attrs", "%a", "TN", "%e", "=", "%e", "TY">>, <<"%a", "TN", "%e", "=", "%e", "TY", "Attrs">>, <<"Attrs">> >>,
  Attrs |-> << <<"%a", "Attr">>, <<"%a", "Attr">>, <<"%a", "Attr", "Attrs">>, <<"%a", "Attr", "Attrs">>, <<"%a", "Attr", "%a", "Attr">> >>,
  Attr |-> << <<"AN", "%e", "=", "%e", "DV">>, <<"AN", "%e", "=", "%e", "DV">>, <<"AN", "%e", "=", "%e", "SV">>, <<"AN", "%e", "=", "%e", "UV">>, <<"ANB">>,
              <<"WN", "%e", "=", "%e", "WV">>, <<"WN", "%e", "=", "%e", "WV">> >>,
  \* ---- documents with preformatted text
  PreDoc |-> << <<"Items", "Pre">>, <<"Pre">>, <<"Pre", "Items">>, <<"Items", "Pre", "Items">>, <<"DT", "Items", "Pre", "Items">>, <<"Pre", "Items", "Pre">> >>,
  Pre |-> << <<"PRE", "%t", ">", "PItems", "PREC">>, <<"PRE", "Attrs", "%t", ">", "PItems", "PREC">>, <<"PRE", "%t", ">", "PREC">>, <<"PRE", "%t", ">", "W", "PREC">> >>,
  PItems |-> << <<"W">>, <<"W", "W">>, <<"W", "PItems">>, <<"Elem">>, <<"Item", "PItems">> >>,
  \* ---- exhaustive neighbours (breadth-first runs)
  Adj |-> << <<"P1", "P1">>, <<"P1", "P2", "P1">>, <<"<p", "%t", ">", "P1", "P1">> >>,
  P1 |-> << <<"W">>, <<"<p", "%t", ">">>, <<"<div", "%a", "x", "%e", "=", "%e", "\"a\"", "%t", ">">>, <<"<br", "%t", "/>">>, <<"TC">>, <<"OT">>, <<"CW">>, <<"CCO", "W", "CCC">>, <<"<script", "%t", ">", "SC", "</script>">>, <<"TOI", "%a", "x", "%t", ">">> >>,
  P2 |-> << <<"OT">>, <<"W">>, <<"</p>">>, <<"OT", "OT">>, <<"CW">> >>,
  AdjA |-> << <<"A0", "%a", "A1", "%t", "TE">>, <<"A0", "%a", "A1", "%a", "A1", "%t", "TE">>, <<"A0", "%a", "A1", "%a", "A2", "%a", "A1", "%t", ">">>,
              <<"PRE", "%t", ">", "</pre>", "A0", "%a", "A1", "%t", "TE">>, <<"<pre", "%a", "A1", "%a", "A1", "%t", ">", "W", "</pre>">>, <<"<textarea", "%a", "A1", "%a", "A2", "%a", "A1", "%t", ">", "W", "</textarea>">> >>,
  A0 |-> << <<"<div">>, <<"<style">>, <<"<script">> >>,
  A1 |-> << <<"x", "%e", "=", "%e", "DV">>, <<"x", "%e", "=", "%e", "SV">>, <<"x", "%e", "=", "%e", "UV">>, <<"hidden">>, <<"WN", "%e", "=", "%e", "WV">>, <<"TN", "%e", "=", "%e", "TY">> >>,
  A2 |-> << <<"x1">>, <<"y", "%e", "=", "%e", "\"1\"">>, <<"y", "%e", "=", "%e", "'1'">>, <<"y", "%e", "=", "%e", "1">> >>
]
FlagSet == {"%a", "%e", "%t", "%n"}

Unquoted(tok) == (tok[1] \in {"UV", "TY", "WV"} /\ SubSeq(tok[2], 1, 1) \notin {"\"", "'"}) \/ tok[2] = "1"

(* Where only whitespace may stand: inside scripts, styles and conditional comments. *)
RECURSIVE Inside(_, _, _)
Inside(ts, i, now) ==
    IF i > Len(ts) THEN <<now>>
    ELSE <<now>> \o Inside(ts, i + 1,
            IF ts[i][1] = "CCO" THEN "cond" ELSE IF ts[i][1] = "CCC" THEN ""
            ELSE IF now = "" /\ ts[i][2] \in {"<script", "<style"} THEN "tag"
            ELSE IF now = "tag" /\ ts[i][2] = ">" THEN "code"
            ELSE IF now = "tag" /\ ts[i][2] = "/>" THEN "code"
            ELSE IF ts[i][2] \in {"</script>", "</style>"} THEN "" ELSE now)

HtmlFinish(ts, fs) ==
    LET n == Len(ts)
        inn == Inside(ts, 1, "")
        kind(i) == IF "%n" \in fs[i] THEN "none"
                   ELSE IF "%a" \in fs[i] THEN "attr"
                   ELSE IF "%e" \in fs[i] THEN "eq"
                   ELSE IF "%t" \in fs[i] THEN (IF ts[i][2] = "/>" /\ i > 1 /\ Unquoted(ts[i - 1]) THEN "attr" ELSE "tend")
                   ELSE IF inn[i] \in {"cond", "code"} THEN "raw" ELSE "txt"
    IN [t |-> [i \in 1 .. n |-> ts[i][2]],
        c |-> [i \in 1 .. n |-> ts[i][1]],
        g |-> [i \in 1 .. n + 1 |-> IF i = n + 1 THEN (IF inn[i] = "" THEN "txt" ELSE "raw") ELSE kind(i)]]

INSTANCE Grammar WITH Prods <- P, Lex <- LexData, Flags <- FlagSet, Start <- StartSym,
                      MaxFuel <- atoi(IOEnv.VF_FUEL), Exhaustive <- Exh, Reps <- atoi(IOEnv.VF_REPS),
                      OutFile <- IOEnv.VF_OUT, Finish <- HtmlFinish
=============================================================================
