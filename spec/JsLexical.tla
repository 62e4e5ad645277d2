----------------------------- MODULE JsLexical -----------------------------
(***************************************************************************)
(* The lexical grammar of JavaScript as far as it decides which lexemes    *)
(* must not touch.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Punct == { "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", ">=", "==", "!=",
           "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^",
           "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=",
           "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??=", "=>" }

PunctChars == { "{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "=", "!", "+", "-", "*", "/",
                "%", "&", "|", "^", "~", "?", ":", "\"", "'", "`", "#", "@" }
WsChars == { " ", "\t", "\n", "\r" }
Digits == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }

Ch(s, i) == SubSeq(s, i, i)
First(s) == Ch(s, 1)
LastCh(s) == Ch(s, Len(s))
(* Identifier parts: letters, digits, _, $ and everything that is not ASCII. *)
IsWordChar(c) == c \notin PunctChars /\ c \notin WsChars

(* A token is <<class, text>>. *)
IsLic(t) == t[1] = "Lic"
IsPunct(t) == t[2] \in Punct
IsQuoted(t) == First(t[2]) \in {"\"", "'", "`"}
IsRegex(t) == First(t[2]) = "/" /\ t[2] \notin Punct /\ ~IsLic(t)

(* A dot directly after it would be its decimal point (not so for 017, which is octal). *)
IsDecimalInt(s) == /\ First(s) \in Digits
                   /\ \A i \in 1 .. Len(s) : Ch(s, i) \in Digits \cup {"_"}
                   /\ (Len(s) > 1 /\ First(s) = "0") =>
                          \E i \in 1 .. Len(s) : Ch(s, i) \in {"8", "9"}

(* `p` read from the start of a \o b is a longer punctuator than a. *)
LongerPunct(a, b) ==
    \E p \in Punct : /\ Len(p) > Len(a)
                     /\ Len(p) <= Len(a) + Len(b)
                     /\ SubSeq(a \o b, 1, Len(p)) = p
                     /\ ~(p = "?." /\ Len(b) > 1 /\ Ch(b, 2) \in Digits)

(* Would a directly followed by b be read differently? *)
NeedSep(a, b) ==
    IF IsLic(a) THEN FALSE
    ELSE IF a[2] = "/" /\ (IsLic(b) \/ First(b[2]) = "/") THEN TRUE
    ELSE IF IsLic(b) THEN FALSE
    ELSE IF IsPunct(a) THEN IsPunct(b) /\ LongerPunct(a[2], b[2])
    ELSE IF IsDecimalInt(a[2]) /\ First(b[2]) = "." /\ b[2] # "..." THEN TRUE
    ELSE IF IsQuoted(a) THEN FALSE
    ELSE (IsRegex(a) \/ First(a[2]) \in Digits \cup {"."} \/ IsWordChar(LastCh(a[2]))) /\ IsWordChar(First(b[2]))

Slash(t) == t[2] = "/" /\ ~IsLic(t)

(* The kind of the gap between the tokens a and b; fl: the flags before b. *)
GapKind(a, b, fl) ==
    LET need == NeedSep(a, b)
        nonl == "%nl" \in fl
    IN IF Slash(a) THEN (IF need THEN "needslash" ELSE IF nonl THEN "slashnonl" ELSE "slash")
       ELSE IF need THEN (IF nonl THEN "neednonl" ELSE "need")
       ELSE IF nonl THEN "nonl" ELSE "any"
=============================================================================
