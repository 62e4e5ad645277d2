----------------------------- MODULE JsonChars -----------------------------
(***************************************************************************)
(* Which characters of a JSON text are in strings, and the text without    *)
(* the whitespace between its tokens.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

JsonWs == {" ", "\t", "\n", "\r"}

(* Scanner: "out", "in" (a string), "esc" (after a backslash in a string). *)
Scan(s, c) == IF s = "out" THEN (IF c = "\"" THEN "in" ELSE "out")
              ELSE IF s = "esc" THEN "in"
              ELSE IF c = "\\" THEN "esc"
              ELSE IF c = "\"" THEN "out" ELSE "in"

StripStep(st, c) == [s |-> Scan(st.s, c),
                     kept |-> IF st.s = "out" /\ c \in JsonWs THEN st.kept ELSE st.kept \o c]
Strip(text) == FoldLeft(StripStep, [s |-> "out", kept |-> ""],
                        [i \in 1 .. Len(text) |-> SubSeq(text, i, i)]).kept
=============================================================================
