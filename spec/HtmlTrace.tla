------------------------------ MODULE HtmlTrace -----------------------------
(***************************************************************************)
(* Checks the recorded runs of the real code against HtmlConform, one      *)
(* record per step; what does not conform is written to VF_BAD.            *)
(***************************************************************************)
EXTENDS HtmlConform, Json, IOUtils, CSV

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.VF_IN)
Lay == JsonDeserialize(IF "VF_LAYOUT" \in DOMAIN IOEnv THEN IOEnv.VF_LAYOUT ELSE "lex/html_layout.json")
Kinds == KindSets(Lay)
Prop == IOEnv.VF_PROP

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<Prop, rec.crash>>} ELSE
    IF ~LayoutOk(Kinds, rec) THEN {<<"TOOL", "layout">>}
    ELSE UNION {CASE Prop = "C22" -> C22Run(Lay.atoms, rec, rec.runs[i])
                  [] Prop = "C23" -> C23Run(Lay.atoms, rec, rec.runs[i])
                  [] Prop = "C24" -> C24Run(Lay.atoms, rec, rec.runs[i]) : i \in 1 .. Len(rec.runs)}

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1

AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
