--------------------------- MODULE JsonStreamTrace ---------------------------
(* Recorded readings, event by event, against JsonStream. *)
EXTENDS JsonStream, TLC, Json, IOUtils, CSV

VARIABLES l, k        \* record, events of it that were accepted (-1: between records)
tvars == <<svars, l, k>>

Trace == ndJsonDeserialize(IOEnv.VF_IN)
Prop == IOEnv.VF_PROP
Rec == Trace[l]
Ev == Rec.ev[k + 1]

Init == want = <<>> /\ fault = "" /\ done = 0 /\ phase = "" /\ once = FALSE /\ whole = <<>> /\ l = 0 /\ k = -1

Bad(v) == CSVWrite("%1$s", <<ToJson([rec |-> l, bad |-> {v}])>>, IOEnv.VF_BAD)

(* The harness's account of the source agrees with itself. *)
Sane(r) == /\ r.fault = "" <=> (r.failAt = 99999 /\ \A i \in 1 .. Len(r.units) : r.units[i][1] # "m")
           /\ Len(r.bytes) = Len(r.units)
           /\ \A i \in 1 .. Len(r.units) : Len(r.bytes[i]) = r.units[i][2]

Open ==
    /\ k = -1 /\ l < Len(Trace)
    /\ l' = l + 1
    /\ LET r == Trace[l + 1] IN
       IF "crash" \in DOMAIN r
       THEN /\ CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> {<<Prop, r.crash>>}])>>, IOEnv.VF_BAD)
            /\ k' = -1 /\ UNCHANGED svars
       ELSE IF ~Sane(r)
       THEN /\ CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> {<<"TOOL", "source">>}])>>, IOEnv.VF_BAD)
            /\ k' = -1 /\ UNCHANGED svars
       ELSE k' = 0 /\ Start(r.want, r.fault, r.once, r.whole)

Event ==
    \/ Ev[2] = "ok" /\ ReadOk(Ev[1], Ev[3])
    \/ Ev[2] = "err" /\ ReadErr(Ev[3])
Step ==
    /\ k >= 0 /\ k < Len(Rec.ev)
    /\ Event
    /\ k' = k + 1 /\ UNCHANGED l
Reject ==
    /\ k >= 0 /\ k < Len(Rec.ev)
    /\ ~ENABLED Event
    /\ Bad(<<Prop, "event", k + 1>>)
    /\ k' = -1 /\ UNCHANGED <<svars, l>>
Close ==
    /\ k >= 0 /\ k = Len(Rec.ev)
    /\ IF phase \in {"ended", "failed"} THEN TRUE ELSE Bad(<<Prop, "never ends">>)
    /\ k' = -1 /\ UNCHANGED <<svars, l>>

Next == Open \/ Step \/ Reject \/ Close
Finished == l = Len(Trace) /\ k = -1
AllChecked == TLCGet(7) = Len(Trace)
Watch == TLCSet(7, l)
=============================================================================
