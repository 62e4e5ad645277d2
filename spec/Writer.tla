------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Writing a minified result into a writer: the writer's behaviours, and   *)
(* the machine of the implementation (pieces written one after the other,  *)
(* each until the writer took all of it), with what a caller relies on.    *)
(*                                                                         *)
(* A writer may take any number of the bytes it is offered, be interrupted *)
(* (nothing taken, to be tried again), refuse (take none), or fail.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, CSV, IOUtils

Mode == IOEnv.VF_MODE                \* "mc": the machine; "bfs", "sim": schedules of the writer
Defect == IOEnv.VF_DEFECT
MaxPieces == 3
MaxPiece == 3

VARIABLES pieces,    \* lengths of the pieces of the text
          i, off,    \* the piece being written and what was taken of it
          taken,     \* positions of the bytes that were taken
          failed,    \* what the writer said last, when it was an error
          intr,      \* interruptions left
          result,    \* "" while writing
          stubborn,  \* a writer that only ever refuses
          resp, at, how
mvars == <<pieces, i, off, taken, failed, intr, result, stubborn>>
vars == <<mvars, resp, at, how>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Base == Total(SubSeq(pieces, 1, i - 1))

Init ==
    /\ pieces \in IF Mode = "mc" THEN UNION {[1 .. n -> 1 .. MaxPiece] : n \in 0 .. MaxPieces} ELSE {<<>>}
    /\ i = 1 /\ off = 0 /\ taken = <<>> /\ failed = "" /\ intr = 2 /\ result = ""
    /\ resp = <<>> /\ at = 0 /\ how = ""
    /\ stubborn \in IF Mode = "mc" THEN BOOLEAN ELSE {FALSE}

Writing == Mode = "mc" /\ result = "" /\ i <= Len(pieces)
Accept ==
    /\ Writing /\ ~stubborn
    /\ \E k \in 1 .. pieces[i] - off :
          /\ taken' = taken \o [j \in 1 .. k |-> Base + off + j]
          /\ IF off + k = pieces[i] \/ Defect = "short" THEN i' = i + 1 /\ off' = 0
             ELSE i' = i /\ off' = off + k
    /\ UNCHANGED <<pieces, failed, intr, result, resp, at, how, stubborn>>
Interrupted ==
    /\ Writing /\ intr > 0
    /\ intr' = intr - 1
    /\ IF Defect = "noRetry" THEN result' = "interrupted" ELSE UNCHANGED result
    /\ UNCHANGED <<pieces, i, off, taken, failed, resp, at, how, stubborn>>
Refuse ==
    /\ Writing
    /\ IF Defect = "spin" THEN UNCHANGED <<failed, result>> ELSE failed' = "zero" /\ result' = "zero"
    /\ UNCHANGED <<pieces, i, off, taken, intr, resp, at, how, stubborn>>
Fail ==
    /\ Writing /\ failed = "" /\ ~stubborn
    /\ failed' = "err"
    /\ IF Defect = "swallow" THEN i' = i + 1 /\ off' = 0 /\ UNCHANGED result
       ELSE result' = "err" /\ UNCHANGED <<i, off>>
    /\ UNCHANGED <<pieces, taken, intr, resp, at, how, stubborn>>
Done ==
    /\ Mode = "mc" /\ result = "" /\ i > Len(pieces)
    /\ result' = "ok"
    /\ UNCHANGED <<pieces, i, off, taken, failed, intr, resp, at, how, stubborn>>

PrefixTaken == \A j \in 1 .. Len(taken) : taken[j] = j
OkIsWhole == result = "ok" => failed = "" /\ Len(taken) = Total(pieces)
ErrorIsTheWriters == result \notin {"", "ok"} => result = failed
Ends == <>(result # "")

(* --- schedules of a writer: what it takes per call (0: interrupted), repeated; where and how it fails --- *)
Patterns == <<  <<1>>, <<2>>, <<3>>, <<1000>>, <<0, 1>>, <<1, 0>>, <<0, 0, 5, 1>>, <<1, 2, 3, 4>>, <<7, 0, 1000, 1>> >>
Kinds == {"zero", "Other", "BrokenPipe", "WriteZero", "PermissionDenied", "UnexpectedEof", "TimedOut", "WouldBlock"}
Emit(r, a, h) ==
    /\ result' = "emitted" /\ resp' = r /\ at' = a /\ how' = h
    /\ CSVWrite("%1$s", <<ToJson([resp |-> r, at |-> a, how |-> h])>>, IOEnv.VF_OUT)
    /\ UNCHANGED <<pieces, i, off, taken, failed, intr, stubborn>>
RECURSIVE Some(_)
Some(n) == IF n = 0 THEN <<>> ELSE <<RandomElement({0, 1, 1, 2, 3, 5, 8, 100})>> \o Some(n - 1)
Schedule ==
    /\ result = ""
    /\ \/ /\ Mode = "bfs"
          /\ \E p \in 1 .. Len(Patterns), h \in Kinds \cup {"no"} :
                \E a \in IF h = "no" THEN {0} ELSE 0 .. atoi(IOEnv.VF_N) : Emit(Patterns[p], a, h)
       \/ /\ Mode = "sim"
          /\ LET fails == RandomElement({TRUE, FALSE, TRUE})
             IN Emit(Some(RandomElement(1 .. 12)) \o <<RandomElement({1, 2, 40})>>, RandomElement(0 .. 400), IF fails THEN RandomElement(Kinds) ELSE "no")
Next == Accept \/ Interrupted \/ Refuse \/ Fail \/ Done \/ Schedule
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept \/ Fail \/ Refuse \/ Done)
=============================================================================
