------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* A generator of programs, as a push-down machine.                        *)
(*                                                                         *)
(* The state is what is left to derive (todo, a stack of grammar symbols), *)
(* what was derived (toks: the lexemes with their classes, flags: the      *)
(* constraints written in the grammar on the gap before each lexeme) and   *)
(* the fuel that bounds the derivation.  A symbol is a nonterminal (in     *)
(* DOMAIN Prods), a lexeme class (in DOMAIN Lex), a flag (in Flags) on the *)
(* gap before the next lexeme, or a lexeme written as itself.              *)
(*                                                                         *)
(* Behaviours that derive a whole program end in an Emit step that writes  *)
(* it.  With Exhaustive = TRUE every production and the first Reps lexemes *)
(* of every class are branched on (breadth-first enumeration); otherwise   *)
(* each step draws one (simulation).                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, CSV, FiniteSets

CONSTANTS Prods,       \* nonterminal -> sequence of right-hand sides
          Lex,         \* lexeme class -> sequence of texts
          Flags,       \* the flags
          Start,       \* start symbol
          MaxFuel,     \* number of free expansions before the first (smallest) production is forced
          Exhaustive,
          Reps,
          OutFile,
          Finish(_, _) \* toks, flags -> what to write

VARIABLES todo, toks, flags, flag, fuel
gvars == <<todo, toks, flags, flag, fuel>>

(* toks holds <<class, number>> (states written to disk would not keep non-ASCII text). *)
Lexeme(x) == IF x[2] = 0 THEN <<"=", x[1]>> ELSE <<x[1], Lex[x[1]][x[2]]>>

GInit ==
    /\ todo = <<Start>>
    /\ toks = <<>>
    /\ flags = <<>>
    /\ flag = {}
    /\ fuel = MaxFuel

Choices(n) == IF fuel = 0 THEN {1}
              ELSE IF Exhaustive THEN 1 .. n
              ELSE {RandomElement(1 .. n)}

Min2(a, b) == IF a < b THEN a ELSE b

Top == Head(todo)

Expand ==
    /\ todo # <<>>
    /\ Top \in DOMAIN Prods
    /\ \E k \in Choices(Len(Prods[Top])) :
          todo' = Prods[Top][k] \o Tail(todo)
    /\ fuel' = IF fuel = 0 \/ Len(Prods[Top]) = 1 THEN fuel ELSE fuel - 1
    /\ UNCHANGED <<toks, flags, flag>>

SetFlag ==
    /\ todo # <<>>
    /\ Top \in Flags
    /\ flag' = flag \cup {Top}
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<toks, flags, fuel>>

Shift ==
    /\ todo # <<>>
    /\ Top \notin DOMAIN Prods
    /\ Top \notin Flags
    /\ IF Top \in DOMAIN Lex
       THEN \E k \in IF Exhaustive THEN 1 .. Min2(Reps, Len(Lex[Top]))
                                   ELSE {RandomElement(1 .. Len(Lex[Top]))} :
               toks' = Append(toks, <<Top, k>>)
       ELSE toks' = Append(toks, <<Top, 0>>)
    /\ flags' = Append(flags, flag)
    /\ flag' = {}
    /\ todo' = Tail(todo)
    /\ UNCHANGED fuel

Emit ==
    /\ todo = <<>>
    /\ fuel # 1000000
    /\ CSVWrite("%1$s", <<ToJson(Finish([i \in 1 .. Len(toks) |-> Lexeme(toks[i])], flags))>>, OutFile)
    /\ fuel' = 1000000
    /\ UNCHANGED <<todo, toks, flags, flag>>

GNext == Expand \/ SetFlag \/ Shift \/ Emit
=============================================================================
