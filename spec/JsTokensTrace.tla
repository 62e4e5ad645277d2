--------------------------- MODULE JsTokensTrace ---------------------------
(***************************************************************************)
(* Checks the recorded calls of the token list API against JsTokens.       *)
(***************************************************************************)
EXTENDS JsTokens, Json, IOUtils, CSV

VARIABLE l

Trace == ndJsonDeserialize(IOEnv.VF_IN)
Layouts == KindSets(JsonDeserialize("lex/js_layout.json"))
Prop == IOEnv.VF_PROP

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<Prop, rec.crash>>} ELSE
    LET toks == Toks(rec) IN
    IF ~LayoutOk(Layouts, rec) THEN {<<"TOOL", "layout">>}
    ELSE CASE Prop = "C14" -> PerRun(rec, toks, C14Run)
           [] Prop = "C15" -> PerRun(rec, toks, C15Run)
           [] Prop = "C16" -> PerRun(rec, toks, C16Run)
           [] Prop = "C17" -> PerRun(rec, toks, C17Run)
           [] Prop = "C18" -> PerRun(rec, toks, C18Run)

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1

AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
