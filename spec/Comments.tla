------------------------------ MODULE Comments ------------------------------
(***************************************************************************)
(* Every comment up to a length, character by character, with what it is   *)
(* to each language: an ordinary comment or a licence.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils

VARIABLES body, phase     \* numbers of characters

Chars == JsonDeserialize("lex/comment_chars.json")
Lang == IOEnv.VF_LANG                  \* "js", "css", "html"
Form == IOEnv.VF_START                 \* "block", "line", "html"
MaxLen == atoi(IOEnv.VF_LEN)
Exh == IOEnv.VF_MODE = "bfs"
Set == IF Form = "line" THEN Chars.line ELSE IF Form = "html" THEN Chars.html ELSE Chars.block

RECURSIVE Text(_, _)
Text(b, i) == IF i > Len(b) THEN "" ELSE Set[b[i]] \o Text(b, i + 1)
HasC(b, c) == \E i \in 1 .. Len(b) : Set[b[i]] = c
(* The comment would end earlier. *)
At(b, i, cs) == i + Len(cs) - 1 <= Len(b) /\ \A k \in 1 .. Len(cs) : Set[b[i + k - 1]] = cs[k]
Ends(b) == CASE Form = "block" -> \E i \in 1 .. Len(b) : At(b, i, <<"*", "/">>)
             [] Form = "html" -> \/ At(b, 1, <<">">>)
                                 \/ At(b, 1, <<"-", ">">>)
                                 \/ \E i \in 1 .. Len(b) : At(b, i, <<"-", "-", ">">>) \/ At(b, i, <<"-", "-", "!", ">">>)
                                                             \/ \E e \in {<<>>, <<"-">>, <<"!">>, <<"-", "!">>} : At(b, i, <<"<!--">> \o e \o <<">">>)
             [] OTHER -> FALSE

(* HTML: what starts with a bracket is kept; with white space before it, or in it, nothing is said. *)
Blank == {" ", "\n"}
FirstInk(b) == LET ink == {i \in 1 .. Len(b) : Set[b[i]] \notin Blank} IN IF ink = {} THEN 0 ELSE CHOOSE i \in ink : \A j \in ink : i <= j
Kept(b) == b # <<>> /\ Set[b[1]] = "["
Unsaid(b) == /\ Form = "html"
             /\ \/ FirstInk(b) > 1 /\ Set[b[FirstInk(b)]] = "["
                \/ Kept(b) /\ (HasC(b, "<") \/ \E c \in Blank : HasC(b, c))

Licence(b) == /\ Form = "block" /\ b # <<>>
              /\ \/ Set[b[1]] = "!"
                 \/ Lang = "css" /\ Set[b[1]] = "*"
Kind(b) == IF Form = "line" THEN "lc"
           ELSE IF Form = "html" THEN (IF Kept(b) THEN "LicHtml" ELSE "bc")
           ELSE IF Licence(b) THEN (IF HasC(b, "\n") THEN "LicNl" ELSE "Lic")
           ELSE IF Lang = "js" /\ HasC(b, "\n") THEN "bcn" ELSE "bc"
Whole(b) == IF Form = "line" THEN "//" \o Text(b, 1) \o "\n" ELSE IF Form = "html" THEN "<!--" \o Text(b, 1) \o "-->" ELSE "/*" \o Text(b, 1) \o "*/"

Init == body = <<>> /\ phase = "grow"
Grow == /\ phase = "grow" /\ Len(body) < MaxLen
        /\ \E k \in IF Exh THEN 1 .. Len(Set) ELSE {RandomElement(1 .. Len(Set))} :
              LET b == Append(body, k) IN ~Ends(b) /\ body' = b
        /\ UNCHANGED phase
Emit == /\ phase = "grow"
        /\ Exh \/ Len(body) >= MaxLen \/ RandomElement(1 .. 12) = 1
        /\ IF Unsaid(body) THEN TRUE ELSE CSVWrite("%1$s", <<ToJson([k |-> Kind(body), s |-> Whole(body)])>>, IOEnv.VF_OUT)
        /\ phase' = "done" /\ UNCHANGED body
Next == Grow \/ Emit
Stuck == phase = "grow"
=============================================================================
