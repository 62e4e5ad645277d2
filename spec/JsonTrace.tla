----------------------------- MODULE JsonTrace -----------------------------
(* What minifying a JSON text gave, against JsonChars. *)
EXTENDS JsonChars, TLC, Json, IOUtils, CSV

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.VF_IN)

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<"C01", rec.crash>>}
    \* the generator's account, once more (not for long texts: it takes long)
    ELSE IF Len(rec.src) < 600 /\ rec.want # Strip(rec.src) THEN {<<"TOOL", "want">>}
    ELSE IF rec.st # "ok" THEN {<<"C01", rec.st>>}
    ELSE IF rec.out # rec.want THEN {<<"C01", "text">>}
    ELSE {}

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1
AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
