----------------------------- MODULE JsLiterals -----------------------------
(***************************************************************************)
(* JavaScript literals, character by character: strings, templates (with   *)
(* expressions, objects, comments and other templates in their             *)
(* interpolations), regular expressions and numbers, each standing in a    *)
(* context where it is a literal.                                          *)
(*                                                                         *)
(* VF_START: the literal ("str1", "str2", "tmpl", "rx", "num").            *)
(* VF_REPS: how many of the units of a class are branched on in exhaustive *)
(* runs; VF_LEN: the most units of a literal.                              *)
(***************************************************************************)
EXTENDS JsLexical, SequencesExt, TLC, Json, CSV, IOUtils

VARIABLES lit,     \* the pieces so far: <<class, number>> or <<text, 0>>
          stack,   \* open parts: "text", "opd" / "op" (expression: what comes next), "brace", "cls"
          mode, target
vars == <<lit, stack, mode, target>>

L == JsonDeserialize("lex/js_lits.json")
Exh == IOEnv.VF_MODE = "bfs"
Start == IOEnv.VF_START
Reps == atoi(IOEnv.VF_REPS)
MaxLen == atoi(IOEnv.VF_LEN)
Depth == IF Exh THEN 2 ELSE 6

MinN(a, b) == IF a < b THEN a ELSE b
Pick(cls) == IF Exh THEN {<<cls, k>> : k \in 1 .. MinN(Reps, Len(L[cls]))} ELSE {<<cls, RandomElement(1 .. Len(L[cls]))>>}
Every(cls) == IF Exh THEN {<<cls, k>> : k \in 1 .. Len(L[cls])} ELSE {<<cls, RandomElement(1 .. Len(L[cls]))>>}
Text(p) == IF p[2] = 0 THEN p[1] ELSE L[p[1]][p[2]]
Render(ps) == FoldLeft(LAMBDA acc, p : acc \o Text(p), "", ps)

Init == /\ lit = <<>> /\ stack = <<>> /\ mode = "start"
        /\ target \in IF Exh THEN {MaxLen} ELSE {RandomElement(1 .. MaxLen)}

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
With(x) == Append(stack, x)
Swap(x) == Append(Pop, x)
Room == Len(lit) < target
In(x) == mode = "in" /\ stack # <<>> /\ Top = x

Add(p) == lit' = Append(lit, p)
Raw(s) == Add(<<s, 0>>)
Same == UNCHANGED <<stack, mode, target>>
LastText == IF lit = <<>> THEN "" ELSE Text(lit[Len(lit)])
Keep == UNCHANGED <<mode, target>>

Open == /\ mode = "start"
        /\ \/ /\ Start \in {"str1", "str2"} /\ Raw(IF Start = "str1" THEN "'" ELSE "\"")
              /\ mode' = "in" /\ stack' = <<Start>>
           \/ /\ Start = "tmpl" /\ Raw("`") /\ mode' = "in" /\ stack' = <<"text">>
           \/ /\ Start = "rx" /\ Raw("/") /\ mode' = "in" /\ stack' = <<"rx">>
           \/ /\ Start = "num" /\ \E p \in Every("num") : Add(p)
              /\ mode' = "in" /\ stack' = <<"num">>
           \/ /\ Start = "num" /\ \E p \in Every("radix") : Add(p)
              /\ mode' = "closed" /\ UNCHANGED stack
           \/ /\ Start = "num" /\ Raw("") /\ mode' = "in" /\ stack' = <<"dot">>
        /\ UNCHANGED target

Str == \E q \in {"str1", "str2"} :
          /\ In(q)
          /\ \/ Room /\ (\E p \in Pick(q) : Add(p)) /\ Same
             \/ Raw(IF q = "str1" THEN "'" ELSE "\"") /\ stack' = Pop /\ mode' = "closed" /\ UNCHANGED target

(* In the text of a template.  A dollar and a brace next to each other open an interpolation. *)
TmplText == /\ In("text")
            /\ \/ /\ Room /\ \E p \in Pick("text") : Add(p)
                  /\ Same
               \/ /\ Room /\ Len(stack) < Depth /\ Raw("${") /\ stack' = With("opd") /\ Keep
               \/ /\ Exh \/ Len(stack) > 1 \/ ~Room \/ RandomElement(1 .. 6) = 1
                  /\ Raw("`")
                  /\ stack' = (IF Len(stack) = 1 THEN <<>> ELSE Append(SubSeq(stack, 1, Len(stack) - 2), "op"))
                  /\ mode' = (IF Len(stack) = 1 THEN "closed" ELSE "in") /\ UNCHANGED target
(* In an interpolation: operands and operators by turns. *)
Slashy == LET s == LastText IN Len(s) > 0 /\ LastCh(s) = "/"
Opd == /\ In("opd")
       /\ \/ \E p \in Pick("opd") : Add(p) /\ ~(Slashy /\ First(Text(p)) = "/") /\ stack' = Swap("op") /\ Keep
          \/ Room /\ (\E p \in Pick("pre") : Add(p)) /\ Same
          \/ Room /\ Len(stack) < Depth /\ Raw("`") /\ stack' = With("text") /\ Keep
          \/ Room /\ Len(stack) < Depth /\ (\E p \in Pick("key") : lit' = lit \o << <<"{", 0>>, p>>) /\ stack' = Swap("brace") \o <<"opd">> /\ Keep
          \/ Room /\ (\E p \in Pick("gap") : ~(Slashy /\ First(Text(p)) = "/") /\ Add(p)) /\ Same
Op == /\ In("op")
      /\ \/ Room /\ (\E p \in Pick("op") : ~(Slashy /\ First(Text(p)) = "/") /\ Add(p)) /\ stack' = Swap("opd") /\ Keep
         \/ Room /\ (\E p \in Pick("suf") : ~(Slashy /\ First(Text(p)) = "/") /\ Add(p)) /\ Same
         \/ Room /\ (\E p \in Pick("gap") : ~(Slashy /\ First(Text(p)) = "/") /\ Add(p)) /\ Same
         \/ /\ Raw("}")
            /\ stack' = (IF Len(stack) > 1 /\ stack[Len(stack) - 1] = "brace" THEN Append(SubSeq(stack, 1, Len(stack) - 2), "op") ELSE Pop)
            /\ Keep

Rx == \/ /\ In("rx") /\ Room
         /\ \/ \E p \in Pick("rx") : Add(p) /\ ~(Len(lit) = 1 /\ First(Text(p)) \in {"*", "/"}) /\ Same
            \/ Raw("[") /\ stack' = With("cls") /\ Keep
            \/ Raw("[^") /\ stack' = With("cls") /\ Keep
      \/ /\ In("cls")
         /\ \/ Room /\ (\E p \in Pick("cls") : Add(p)) /\ Same
            \/ Raw("]") /\ stack' = Pop /\ Keep
      \/ /\ In("rx") /\ Len(lit) > 1
         /\ \E p \in Every("flags") : (Exh => p[2] <= 2) /\ lit' = lit \o << <<"/", 0>>, p>>
         /\ stack' = Pop /\ mode' = "closed" /\ UNCHANGED target

(* Not 017.5 nor 00e1. *)
Octal == LET s == Text(lit[1]) IN Len(s) > 1 /\ First(s) = "0"
Num == \/ /\ In("num")
          /\ \/ ~Octal /\ (\E p \in Every("frac") : Add(p)) /\ stack' = <<"exp">> /\ mode' = mode
             \/ Raw("") /\ stack' = <<"exp">> /\ mode' = mode
             \/ ~Octal /\ Raw("n") /\ stack' = <<>> /\ mode' = "closed"
          /\ UNCHANGED target
       \/ /\ In("dot") /\ \E p \in Every("frac") : Text(p) # "." /\ Add(p)
          /\ stack' = <<"exp">> /\ Keep
       \/ /\ In("exp") /\ \E p \in Every("exp") : ((Len(Text(lit[1])) > 0 /\ Octal) => Text(p) = "") /\ Add(p)
          /\ stack' = <<>> /\ mode' = "closed" /\ UNCHANGED target

(* --- the program around it --- *)
Class == CASE Start \in {"str1", "str2"} -> "Str" [] Start = "tmpl" -> "Tmpl" [] Start = "rx" -> "Rx" [] OTHER -> "Num"
RECURSIVE Toks(_, _)
Toks(words, fl) == IF words = <<>> THEN <<>>
                   ELSE IF Head(words) = "%nl" THEN Toks(Tail(words), {"%nl"})
                   ELSE << << <<"=", Head(words)>>, fl>> >> \o Toks(Tail(words), {})
Finish(before, text, after) ==
    LET b == Toks(before, {})
        nl == Len(before) > 0 /\ before[Len(before)] = "%nl"
        a == Toks(after, {})
        all == b \o << << <<Class, text>>, IF nl THEN {"%nl"} ELSE {} >> >> \o a
        n == Len(all)
    IN [t |-> [i \in 1 .. n |-> all[i][1][2]],
        c |-> [i \in 1 .. n |-> all[i][1][1]],
        g |-> [i \in 1 .. n + 1 |-> IF i = 1 THEN "any" ELSE IF i = n + 1 THEN "end"
                                    ELSE GapKind(all[i - 1][1], all[i][1], all[i][2])]]

Afters == IF Start = "rx" THEN L.after ELSE L.after \o L.afterdiv
(* Every literal of an exhaustive run gets one context, and all contexts get literals. *)
Mix == FoldLeft(LAMBDA acc, p : (acc * 31 + p[2] * 7 + Len(p[1])) % 100003, 17, lit)
Emit == /\ mode = "closed"
        /\ LET b == IF Exh THEN (Mix % Len(L.before)) + 1 ELSE RandomElement(1 .. Len(L.before))
               a == IF Exh THEN ((Mix \div 64) % Len(Afters)) + 1 ELSE RandomElement(1 .. Len(Afters))
           IN CSVWrite("%1$s", <<ToJson(Finish(L.before[b], Render(lit), Afters[a]))>>, IOEnv.VF_OUT)
        /\ mode' = "done" /\ UNCHANGED <<lit, stack, target>>

Next == Open \/ Str \/ TmplText \/ Opd \/ Op \/ Rx \/ Num \/ Emit
=============================================================================
