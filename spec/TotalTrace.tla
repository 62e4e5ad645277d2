----------------------------- MODULE TotalTrace -----------------------------
(***************************************************************************)
(* Every minifier answers: with a text; or with an error, where it may.    *)
(* A record tells how often each status was seen (and examples); d is how  *)
(* deep template literals are nested in interpolations.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.VF_IN)

MaxTemplates == 1000
MayFail(lang, d) == \/ lang = "css"
                    \/ lang = "js" /\ d > MaxTemplates

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<"C08", rec.crash>>}
    ELSE IF rec.n # rec.ok + rec.err + rec.panic \/ rec.n = 0 THEN {<<"TOOL", "count">>}
    ELSE (IF rec.panic > 0 THEN {<<"C08", "panic">>} ELSE {})
         \cup (IF rec.err > 0 /\ ~MayFail(rec.lang, rec.d) THEN {<<"C08", "refused">>} ELSE {})

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1
AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
