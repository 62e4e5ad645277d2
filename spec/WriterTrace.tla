---------------------------- MODULE WriterTrace ----------------------------
(***************************************************************************)
(* Checks recorded writings: every call the code made on the writer is a   *)
(* step of what a caller may observe (the bytes taken so far are the       *)
(* beginning of the displayed text; an error ends it), one record per      *)
(* behaviour, one event per step.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils, CSV

Trace == ndJsonDeserialize(IOEnv.VF_IN)

VARIABLES l, e,          \* record, event
          done, err      \* bytes taken, the writer's error ("" : none)
vars == <<l, e, done, err>>

Rec == Trace[l]
Init == l = 0 /\ e = 0 /\ done = 0 /\ err = ""

Reject(why) == CSVWrite("%1$s", <<ToJson([rec |-> l, bad |-> {<<"C19", why, e>>}])>>, IOEnv.VF_BAD)
Begin(k) == l' = k /\ e' = 0 /\ done' = 0 /\ err' = ""

Crash == l > 0 /\ l <= Len(Trace) /\ "crash" \in DOMAIN Rec
(* An event: <<offered, what the writer said, bytes it took>>. *)
Ev == Rec.ev[e + 1]
Taken == Ev[3]
Legal == /\ done + Len(Taken) <= Len(Rec.shown)
         /\ Taken = SubSeq(Rec.shown, done + 1, done + Len(Taken))
Step ==
    /\ l > 0 /\ l <= Len(Trace) /\ ~Crash /\ e < Len(Rec.ev)
    /\ IF Legal
       THEN /\ done' = done + Len(Taken)
            /\ err' = IF err # "" THEN err
                      ELSE IF Ev[2] = "ok" /\ Len(Taken) = 0 /\ Ev[1] > 0 THEN "WriteZero"
                      ELSE IF Ev[2] \in {"ok", "Interrupted"} THEN "" ELSE Ev[2]
            /\ e' = e + 1 /\ UNCHANGED l
       ELSE Reject("not a prefix") /\ Begin(l + 1)
Result ==
    IF Rec.st = "ok" THEN (IF err # "" THEN "error lost" ELSE IF done # Len(Rec.shown) THEN "not everything" ELSE "")
    ELSE IF Rec.st = "panic" THEN "panic"
    ELSE IF err = "" THEN "no error of the writer" ELSE IF Rec.st # err THEN "another error" ELSE ""
(* Displaying into a formatter which gave up after some bytes (ffailed). *)
Formatting == /\ Len(Rec.ftaken) <= Len(Rec.shown) /\ Rec.ftaken = SubSeq(Rec.shown, 1, Len(Rec.ftaken))
              /\ Rec.fok <=> ~Rec.ffailed
              /\ Rec.fok => Len(Rec.ftaken) = Len(Rec.shown)
Finish ==
    /\ l > 0 /\ l <= Len(Trace) /\ ~Crash /\ e = Len(Rec.ev)
    /\ (IF Result # "" THEN Reject(Result) ELSE IF ~Rec.same THEN Reject("displayed differently")
        ELSE IF ~Formatting THEN Reject("formatting") ELSE TRUE)
    /\ Begin(l + 1)
Crashed == Crash /\ Reject(Rec.crash) /\ Begin(l + 1)
Start == l = 0 /\ Begin(1)
Next == Start \/ Step \/ Finish \/ Crashed

(* Every record was walked to its end. *)
Watch == TLCSet(7, l)
AllChecked == TLCGet(7) = Len(Trace) + 1
=============================================================================
