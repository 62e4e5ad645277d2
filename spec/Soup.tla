-------------------------------- MODULE Soup --------------------------------
(***************************************************************************)
(* Texts without any promise: strings over an alphabet of the characters   *)
(* and fragments that steer a minifier.                                    *)
(*                                                                         *)
(* "bfs": all texts of at most VF_LEN units of the alphabet VF_CH.         *)
(* "sim": sequences of units, sometimes repeated a great number of times,  *)
(* and (VF_NEST = 1) nests: an opening repeated n times, a middle and as   *)
(* many closings (sometimes missing).                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, CSV, IOUtils

VARIABLES text, target, phase
vars == <<text, target, phase>>

Exh == IOEnv.VF_MODE = "bfs"
Nest == IOEnv.VF_NEST = "1"
Tables == JsonDeserialize("lex/soup.json")
L == Tables[IOEnv.VF_CH]
N == Len(L)
Nests == Tables[IOEnv.VF_CH \o "_nest"]     \* <<opening, middle, closing, depth of a template per opening>>
Times == <<1, 2, 3, 10, 100, 500, 999, 1000, 1001, 1002, 1500, 5000, 20000>>

Init == /\ text = <<>> /\ phase = "grow"
        /\ target \in IF Exh \/ Nest THEN {atoi(IOEnv.VF_LEN)} ELSE {RandomElement(1 .. atoi(IOEnv.VF_LEN))}

Add == /\ phase = "grow" /\ ~Nest /\ Len(text) < target
       /\ IF Exh THEN \E k \in 1 .. N : text' = Append(text, <<k, 1>>)
          ELSE text' = Append(text, <<RandomElement(1 .. N), IF RandomElement(1 .. 40) = 1 THEN RandomElement({2, 3, 50, 300}) ELSE 1>>)
       /\ UNCHANGED <<target, phase>>

Emit == /\ phase = "grow" /\ ~Nest /\ (IF Exh THEN text # <<>> ELSE Len(text) = target)
        /\ CSVWrite("%1$s", <<ToJson([lang |-> IOEnv.VF_LANG, d |-> 0, p |-> [i \in 1 .. Len(text) |-> <<L[text[i][1]], text[i][2]>>]])>>, IOEnv.VF_OUT)
        /\ phase' = "done" /\ UNCHANGED <<text, target>>

EmitNest == /\ phase = "grow" /\ Nest
            /\ \E k \in 1 .. Len(Nests), t \in 1 .. Len(Times), missing \in {0, 1} :
                  LET x == Nests[k]
                      closing == IF missing = 1 THEN <<>> ELSE << <<x[3], Times[t]>> >>
                  IN CSVWrite("%1$s", <<ToJson([lang |-> IOEnv.VF_LANG, d |-> x[4] * Times[t],
                                               p |-> << <<x[1], Times[t]>>, <<x[2], 1>> >> \o closing])>>, IOEnv.VF_OUT)
            /\ phase' = "done" /\ UNCHANGED <<text, target>>

Next == Add \/ Emit \/ EmitNest
=============================================================================
