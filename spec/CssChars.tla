------------------------------ MODULE CssChars ------------------------------
(***************************************************************************)
(* What makes a text unacceptable as a style sheet: a string or a comment  *)
(* which is never closed, a closing brace without an open one, a closing   *)
(* bracket without an open one, an opening bracket inside brackets.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Quotes == {"\"", "'"}
CssWs == {" ", "\t", "\n", "\r", "\f"}
(* What ends a word. *)
Separators == Quotes \cup CssWs \cup {",", ">", "(", ")", "{", "}", "[", "]", ":", ";", "/", "+", "=", "*", "|", "~", "$", "^"}

(* m: in code, in a string (closed by q), in a comment.
   esc: the next character is escaped.
   slash, star: the previous character was a / of the code, a * of the comment.
   w: the word being read, as far as it may be url.
   url: "no", "yes" (in the unquoted contents of one), "maybe" (right after its parenthesis).
   open, br: open blocks, inside brackets.  bad: nothing can repair the text any more. *)
CssStart == [m |-> "code", q |-> "", esc |-> FALSE, slash |-> FALSE, star |-> FALSE, w |-> "",
             url |-> "no", open |-> 0, br |-> FALSE, bad |-> FALSE]

WordStep(w, c) == IF c \in Separators THEN ""
                  ELSE IF w = "" /\ c \in {"u", "U"} THEN "u"
                  ELSE IF w = "u" /\ c \in {"r", "R"} THEN "ur"
                  ELSE IF w = "ur" /\ c \in {"l", "L"} THEN "url"
                  ELSE "x"

CodeStep(s, c) ==
    LET url == IF s.url # "maybe" \/ c \in CssWs THEN s.url
               ELSE IF c \in Quotes THEN "no" ELSE "yes"
        t == [s EXCEPT !.slash = FALSE, !.w = WordStep(s.w, c), !.url = url]
    IN IF c = "*" /\ s.slash THEN [t EXCEPT !.m = "com", !.star = FALSE, !.w = ""]
       ELSE IF c = "\\" THEN [t EXCEPT !.esc = TRUE]
       ELSE IF c \in Quotes THEN [t EXCEPT !.m = "str", !.q = c]
       ELSE IF c = "/" THEN [t EXCEPT !.slash = (url = "no")]
       ELSE IF c = "(" THEN [t EXCEPT !.url = IF s.w = "url" THEN "maybe" ELSE "no"]
       ELSE IF c = ")" THEN [t EXCEPT !.url = "no"]
       ELSE IF c = "{" THEN [t EXCEPT !.open = @ + 1]
       ELSE IF c = "}" THEN IF s.open = 0 THEN [t EXCEPT !.bad = TRUE] ELSE [t EXCEPT !.open = @ - 1]
       ELSE IF c = "[" THEN IF s.br THEN [t EXCEPT !.bad = TRUE] ELSE [t EXCEPT !.br = TRUE]
       ELSE IF c = "]" THEN IF s.br THEN [t EXCEPT !.br = FALSE] ELSE [t EXCEPT !.bad = TRUE]
       ELSE t

CssStep(s, c) ==
    IF s.bad THEN s
    ELSE IF s.esc THEN [s EXCEPT !.esc = FALSE, !.w = "x"]
    ELSE IF s.m = "str" THEN
        IF c = "\\" THEN [s EXCEPT !.esc = TRUE]
        ELSE IF c = s.q THEN [s EXCEPT !.m = "code", !.w = ""]
        ELSE s
    ELSE IF s.m = "com" THEN
        IF c = "/" /\ s.star THEN [s EXCEPT !.m = "code", !.w = ""]
        ELSE [s EXCEPT !.star = (c = "*")]
    ELSE CodeStep(s, c)

CssRun(s, text) == FoldLeft(CssStep, s, [i \in 1 .. Len(text) |-> SubSeq(text, i, i)])
Acceptable(s) == ~s.bad /\ s.m = "code"
CssAccepts(text) == Acceptable(CssRun(CssStart, text))
=============================================================================
