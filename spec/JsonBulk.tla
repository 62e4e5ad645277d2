------------------------------ MODULE JsonBulk ------------------------------
(***************************************************************************)
(* Long readings through the streaming JSON minifier: runs of units, the   *)
(* sizes in which the source gives them and the caller's buffers.  Only    *)
(* the schedule is chosen here; what may be observed is JsonStream's.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

VARIABLES n, done
Faults == IOEnv.VF_FAULTS = "yes"

Units == {<<"q", 1>>, <<"b", 1>>, <<"w", 1>>, <<"w", 2>>, <<"w", 3>>, <<"c", 1>>, <<"c", 2>>, <<"c", 3>>, <<"c", 4>>}
Bad == {<<"m", 1>>, <<"m", 2>>}
Runs == <<1, 1, 1, 2, 3, 7, 64, 255, 256, 400>>
Gives == {0, 1, 2, 3, 5, 8, 63, 64, 100, 255, 256, 1000, 4096}
Bufs == {5, 7, 16, 63, 64, 65, 255, 256, 257, 1000, 4096, 8192, 70000}
NoFail == 99999

RECURSIVE Text(_)
Text(k) == IF k = 0 THEN <<>>
           ELSE LET u == RandomElement(Units)
                    r == Runs[RandomElement(1 .. Len(Runs))]
                IN [i \in 1 .. r |-> u] \o Text(k - 1)
RECURSIVE Bytes(_, _)
Bytes(us, i) == IF i = 0 THEN 0 ELSE us[i][2] + Bytes(us, i - 1)
Some(S, k) == [i \in 1 .. k |-> RandomElement(S)]

Init == n = 0 /\ done = FALSE
(* The random choices are made once: each is bound by a quantifier. *)
Next ==
    /\ ~done
    /\ \E us0 \in {Text(RandomElement(3 .. 14))}, way \in {RandomElement(1 .. 3)} :
       \E at \in {RandomElement(0 .. Len(us0))}, m \in {RandomElement(Bad)} :
       \E us \in {IF Faults /\ way = 1 THEN SubSeq(us0, 1, at) \o <<m>> \o SubSeq(us0, at + 1, Len(us0)) ELSE us0} :
       \E fail \in {IF Faults /\ way # 1 THEN RandomElement(0 .. Bytes(us, Len(us))) ELSE NoFail},
          src \in {Some(Gives, RandomElement(0 .. 60))}, bufs \in {Some(Bufs, RandomElement(1 .. 5))}, once \in {RandomElement(BOOLEAN)} :
          CSVWrite("%1$s", <<ToJson([units |-> us, failAt |-> fail, once |-> once /\ fail # NoFail, src |-> src, bufs |-> bufs])>>, IOEnv.VF_OUT)
    /\ done' = TRUE /\ n' = n + 1
=============================================================================
