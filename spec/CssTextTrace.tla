---------------------------- MODULE CssTextTrace ----------------------------
(* Which texts minifying accepted, against CssChars. *)
EXTENDS CssChars, TLC, Json, IOUtils, CSV

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.VF_IN)

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<"C12", rec.crash>>}
    ELSE IF rec.want # CssAccepts(rec.src) THEN {<<"TOOL", "want">>}
    ELSE IF rec.st \notin {"ok", "err"} THEN {<<"C12", rec.st>>}
    ELSE IF rec.want # (rec.st = "ok") THEN {<<"C12", IF rec.want THEN "refused" ELSE "accepted">>}
    ELSE {}

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1
AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
