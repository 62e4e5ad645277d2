------------------------------ MODULE JsTrace ------------------------------
(***************************************************************************)
(* Checks the recorded runs of the real code against JsConform, one record *)
(* per step; what does not conform is written to VF_BAD.                   *)
(***************************************************************************)
EXTENDS JsConform, Json, IOUtils, CSV

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.VF_IN)
Kinds == KindSets(JsonDeserialize(IF "VF_LAYOUT" \in DOMAIN IOEnv THEN IOEnv.VF_LAYOUT ELSE "lex/js_layout.json"))
Prop == IOEnv.VF_PROP

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<Prop, rec.crash>>} ELSE
    LET toks == Toks(rec) IN
    IF ~LayoutOk(Kinds, rec) THEN {<<"TOOL", "layout">>}
    ELSE CASE Prop = "C04" -> PerRun(rec, toks, C04Run)
           [] Prop = "C05" -> PerRun(rec, toks, C05Run)
           [] Prop = "C06" -> PerRun(rec, toks, C06Run)
           [] Prop = "C07" -> C07Rec(rec, toks)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1

AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
