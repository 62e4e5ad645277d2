------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* Valid JSON texts, built character by character by a push-down machine   *)
(* which knows what each character is: kept says what minifying keeps.     *)
(* impl is the same filter with the state of the implementation (inside a  *)
(* string, characters still escaped).                                      *)
(***************************************************************************)
EXTENDS JsonChars, TLC, Json, CSV, IOUtils, FiniteSets

VARIABLES text, stack, mode, impl, same, n
vars == <<text, stack, mode, impl, same, n>>

MaxLen == atoi(IOEnv.VF_LEN)
MaxDepth == atoi(IOEnv.VF_DEPTH)
Exh == IOEnv.VF_MODE = "bfs"
Emits == IOEnv.VF_OUT # ""
Bulk == "VF_BULK" \in DOMAIN IOEnv

L == JsonDeserialize("lex/json.json")      \* character classes and literals

(* A piece of text is <<class, number, kept>>, or <<text, 0, kept>>; states hold no non-ASCII text
   (TLC's state queue would not keep it). *)
Text(p) == IF p[2] = 0 THEN p[1] ELSE L[p[1]][p[2]]
RECURSIVE Cat(_, _, _)
Cat(ps, i, j) == IF i > j THEN "" ELSE IF i = j THEN Text(ps[i]) ELSE LET m == (i + j) \div 2 IN Cat(ps, i, m) \o Cat(ps, m + 1, j)
Render(ps) == Cat(ps, 1, Len(ps))
Kept(ps) == Render(SelectSeq(ps, LAMBDA p : p[3]))
Pick(cls, all) == IF Exh THEN {<<cls, k>> : k \in 1 .. (IF all /\ Len(L[cls]) > 1 THEN 2 ELSE 1)}
                  ELSE {<<cls, RandomElement(1 .. Len(L[cls]))>>}

(* The implementation's filter: instr, esc (characters still escaped). *)
ImplStep(st, c) ==
    LET instr == IF ~st.instr THEN c = "\"" ELSE ~(st.esc = 0 /\ c = "\"")
        esc == IF st.instr THEN (IF st.esc > 0 THEN st.esc - 1 ELSE IF c = "\\" THEN 1 ELSE 0) ELSE 0
    IN [instr |-> instr, esc |-> esc, keep |-> ~(~instr /\ c \in JsonWs)]
Chars(s) == [i \in 1 .. Len(s) |-> SubSeq(s, i, i)]

Init == /\ text = <<>> /\ stack = <<>> /\ mode = "val" /\ n = 0
        /\ impl = [instr |-> FALSE, esc |-> 0, keep |-> TRUE]
        /\ same = TRUE

Put(ps, keep) ==
    LET new == [i \in 1 .. Len(ps) |-> <<ps[i][1], ps[i][2], keep>>]
    IN /\ text' = text \o new
       /\ impl' = FoldLeft(ImplStep, impl, Chars(Render(new)))
       /\ same' = (same /\ (Len(Render(new)) = 1 => impl'.keep = keep))
       /\ n' = n + 1
Raw(s, keep) == Put(<< <<s, 0>> >>, keep)

Room == n < MaxLen
(* Simulated texts are seldom bare scalars, and seldom close their outermost bracket early. *)
Deeper == Exh \/ stack # <<>> \/ n > 2 \/ RandomElement(1 .. 10) = 1
Stay == Exh \/ Len(stack) > 1 \/ ~Room \/ RandomElement(1 .. 12) = 1
AtValue == mode \in {"val", "elem0"}
Between == mode \in {"val", "elem0", "aft", "key0", "key", "col"}

Space == /\ Room /\ Between
         /\ Exh \/ RandomElement(1 .. 3) = 1
         /\ \E c \in Pick("ws", TRUE) : Put(<<c>>, FALSE)
         /\ UNCHANGED <<stack, mode>>
Literal == /\ AtValue /\ Deeper
           /\ \E x \in Pick("lit", FALSE) : Put(<<x>>, TRUE)
           /\ mode' = "aft" /\ UNCHANGED stack
OpenArray == /\ Room /\ AtValue /\ Len(stack) < MaxDepth
             /\ Raw("[", TRUE) /\ stack' = <<"]">> \o stack /\ mode' = "elem0"
OpenObject == /\ Room /\ AtValue /\ Len(stack) < MaxDepth
              /\ Raw("{", TRUE) /\ stack' = <<"}">> \o stack /\ mode' = "key0"
OpenString == /\ Room /\ AtValue /\ Deeper
              /\ Raw("\"", TRUE) /\ mode' = "str" /\ UNCHANGED stack
OpenKey == /\ mode \in {"key0", "key"} /\ (mode = "key" \/ Room)
           /\ Raw("\"", TRUE) /\ mode' = "kstr" /\ UNCHANGED stack
StrChar == /\ Room /\ mode \in {"str", "kstr"}
           /\ \E c \in Pick("plain", TRUE) \cup Pick("space", FALSE) \cup Pick("punct", FALSE) : Put(<<c>>, TRUE)
           /\ UNCHANGED <<stack, mode>>
StrEscape == /\ Room /\ mode \in {"str", "kstr"}
             /\ \E c \in Pick("esc", TRUE) : Put(<< <<"\\", 0>>, c>>, TRUE)
             /\ UNCHANGED <<stack, mode>>
(* Many times the same, in one step (bulk texts). Such runs leave the filter's state as it was. *)
Runs == {2, 3, 16, 63, 64, 127, 128, 129, 255, 256, 257, 300, 1000}
PutRun(one, two, k, keep) ==
    /\ text' = text \o [i \in 1 .. 2 * k |-> IF i % 2 = 1 THEN <<one[1], one[2], keep>> ELSE <<two[1], two[2], keep>>]
    /\ n' = n + 1 /\ UNCHANGED <<impl, same, stack, mode>>
InRun == /\ Bulk /\ Room /\ mode \in {"str", "kstr"} /\ RandomElement(1 .. 3) = 1
         /\ \E k \in {RandomElement(Runs)}, j \in {RandomElement(1 .. 4)},
               c \in Pick("esc", FALSE), d \in Pick("plain", FALSE), e \in Pick("space", FALSE) :
                  IF j = 1 THEN PutRun(<<"\\", 0>>, <<"\\", 0>>, k, TRUE)
                  ELSE IF j = 2 THEN PutRun(<<"\\", 0>>, c, k, TRUE)
                  ELSE IF j = 3 THEN PutRun(d, d, k, TRUE) ELSE PutRun(e, d, k, TRUE)
SpaceRun == /\ Bulk /\ Room /\ Between /\ RandomElement(1 .. 4) = 1
            /\ \E k \in {RandomElement(Runs)}, c \in Pick("ws", FALSE), d \in Pick("ws", FALSE) : PutRun(c, d, k, FALSE)
EndString == /\ mode = "str" /\ Raw("\"", TRUE) /\ mode' = "aft" /\ UNCHANGED stack
EndKey == /\ mode = "kstr" /\ Raw("\"", TRUE) /\ mode' = "col" /\ UNCHANGED stack
Colon == /\ mode = "col" /\ Raw(":", TRUE) /\ mode' = "val" /\ UNCHANGED stack
Comma == /\ Room /\ mode = "aft" /\ stack # <<>>
         /\ Raw(",", TRUE) /\ mode' = (IF Head(stack) = "]" THEN "val" ELSE "key") /\ UNCHANGED stack
Close == /\ stack # <<>> /\ Stay /\ mode \in {"aft", "elem0", "key0"}
         /\ mode = "elem0" => Head(stack) = "]"
         /\ mode = "key0" => Head(stack) = "}"
         /\ Raw(Head(stack), TRUE) /\ stack' = Tail(stack) /\ mode' = "aft"

Emit == /\ mode = "aft" /\ stack = <<>>
        /\ Emits => CSVWrite("%1$s", <<ToJson([src |-> Render(text), want |-> Kept(text)])>>, IOEnv.VF_OUT)
        /\ mode' = "done" /\ UNCHANGED <<text, stack, impl, same, n>>

Next == Space \/ Literal \/ OpenArray \/ OpenObject \/ OpenString \/ OpenKey \/ StrChar \/ StrEscape \/ InRun \/ SpaceRun
        \/ EndString \/ EndKey \/ Colon \/ Comma \/ Close \/ Emit

(* Three ways to say which characters are kept agree. *)
KeptIsStrip == mode = "done" /\ ~Bulk => Kept(text) = Strip(Render(text))
KeptIsImpl == same
=============================================================================