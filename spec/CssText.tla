------------------------------ MODULE CssText ------------------------------
(***************************************************************************)
(* Texts that are style sheets or nearly so.                               *)
(*                                                                         *)
(* VF_MODE = "bfs": every text of at most VF_LEN units over the characters *)
(* of VF_CH (with "url(" as one unit).    "sim": texts put together from  *)
(* pieces of which it is known what they do (closed strings, comments,     *)
(* URLs and escapes; brackets and braces; strings and comments which are   *)
(* not closed), in which the verdict is known by construction.             *)
(***************************************************************************)
EXTENDS CssChars, TLC, Json, CSV, IOUtils, FiniteSets

VARIABLES text, st, open, br, broken, n, last, phase
vars == <<text, st, open, br, broken, n, last, phase>>

Exh == IOEnv.VF_MODE = "bfs"
L == JsonDeserialize("lex/css_text.json")
Text(p) == L[p[1]][p[2]]
Render(ps) == FoldLeft(LAMBDA acc, p : acc \o Text(p), "", ps)
Pick(cls) == IF Exh THEN {<<cls, k>> : k \in 1 .. Len(L[cls])} ELSE {<<cls, RandomElement(1 .. Len(L[cls]))>>}

Init == /\ text = <<>> /\ st = CssStart /\ open = 0 /\ br = FALSE /\ broken = FALSE /\ n = 0 /\ phase = "grow"
        /\ last \in IF Exh THEN {atoi(IOEnv.VF_LEN)} ELSE {RandomElement(2 .. atoi(IOEnv.VF_LEN))}

Add(p) == /\ text' = Append(text, p)
          /\ st' = CssRun(st, Text(p))
          /\ n' = n + 1

(* Every text. *)
Char == /\ Exh /\ phase = "grow" /\ n < last
        /\ \E p \in Pick(IOEnv.VF_CH) :
              \* an escape is a part of the word it stands in, and a word that ends with url isn't url
              /\ (Len(Text(p)) > 1) => st.w = "" /\ ~st.esc
              /\ Add(p)
        /\ UNCHANGED <<open, br, broken, last, phase>>

(* Texts with a meaning. *)
Growing == ~Exh /\ phase = "grow" /\ n < last
Filler == /\ Growing
          /\ \E p \in Pick(RandomElement({"word", "ws", "punct", "str", "com", "esc", "url", "urlstr"})) : Add(p)
          /\ UNCHANGED <<open, br, broken, last, phase>>
OpenBlock == /\ Growing /\ Add(<<"brace", 1>>) /\ open' = open + 1 /\ UNCHANGED <<br, broken, last, phase>>
CloseBlock == /\ Growing /\ (open > 0 \/ RandomElement(1 .. 25) = 1)
              /\ Add(<<"brace", 2>>)
              /\ open' = (IF open > 0 THEN open - 1 ELSE 0)
              /\ broken' = (broken \/ open = 0)
              /\ UNCHANGED <<br, last, phase>>
OpenBracket == /\ Growing /\ (~br \/ RandomElement(1 .. 25) = 1)
               /\ Add(<<"bracket", 1>>) /\ br' = TRUE /\ broken' = (broken \/ br) /\ UNCHANGED <<open, last, phase>>
CloseBracket == /\ Growing /\ (br \/ RandomElement(1 .. 25) = 1)
                /\ Add(<<"bracket", 2>>) /\ br' = FALSE /\ broken' = (broken \/ ~br) /\ UNCHANGED <<open, last, phase>>
Unclosed == /\ Growing /\ RandomElement(1 .. 30) = 1
            /\ \E p \in Pick(RandomElement({"ustr", "ucom"})) : Add(p)
            /\ broken' = TRUE /\ phase' = "end" /\ UNCHANGED <<open, br, last>>

Emit == /\ (Exh /\ n > 0 /\ phase = "grow") \/ (~Exh /\ (phase = "end" \/ (phase = "grow" /\ n = last)))
        /\ CSVWrite("%1$s", <<ToJson([src |-> Render(text), want |-> Acceptable(st)])>>, IOEnv.VF_OUT)
        /\ phase' = "done" /\ UNCHANGED <<text, st, open, br, broken, n, last>>

Next == Char \/ Filler \/ OpenBlock \/ CloseBlock \/ OpenBracket \/ CloseBracket \/ Unclosed \/ Emit

(* The verdict by construction is that of the automaton. *)
SameVerdict == (~Exh /\ phase = "done") => (Acceptable(st) <=> ~broken)
=============================================================================
