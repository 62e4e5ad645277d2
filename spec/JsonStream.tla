----------------------------- MODULE JsonStream -----------------------------
(***************************************************************************)
(* What a caller of the streaming JSON minifier may observe.  want is the  *)
(* minified text (bytes) of what the source delivers soundly; fault is the *)
(* kind of error that it then reports ("" if it ends).                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

VARIABLES want, fault, done, phase,     \* done: bytes delivered; phase: reading, ended, failed
          once, whole                   \* does it fail only once? what reading on gives then
svars == <<want, fault, done, phase, once, whole>>
fixed == <<once, whole>>

Start(w, f, o, a) == want' = w /\ fault' = f /\ done' = 0 /\ phase' = "reading" /\ once' = o /\ whole' = a

(* A read into an empty buffer. *)
Nothing(size, bytes) ==
    /\ size = 0 /\ bytes = <<>>
    /\ UNCHANGED svars
Deliver(size, bytes) ==
    /\ phase = "reading"
    /\ bytes # <<>> /\ Len(bytes) <= size
    /\ done + Len(bytes) <= Len(want)
    /\ bytes = SubSeq(want, done + 1, done + Len(bytes))
    /\ done' = done + Len(bytes)
    /\ UNCHANGED <<want, fault, phase, fixed>>
End(size, bytes) ==
    /\ phase \in {"reading", "ended"} /\ size > 0 /\ bytes = <<>>
    /\ fault = "" /\ done = Len(want)
    /\ phase' = "ended" /\ UNCHANGED <<want, fault, done, fixed>>
Fail(kind) ==
    /\ phase = "reading" /\ fault # "" /\ kind = fault
    /\ IF once THEN phase' = "reading" /\ want' = whole /\ fault' = "" /\ once' = FALSE /\ UNCHANGED <<done, whole>>
       ELSE phase' = "failed" /\ UNCHANGED <<want, fault, done, fixed>>
(* Once a lasting error was reported nothing more is promised. *)
After(size, bytes) == phase = "failed" /\ Len(bytes) <= size /\ UNCHANGED svars

ReadOk(size, bytes) == Nothing(size, bytes) \/ Deliver(size, bytes) \/ End(size, bytes) \/ After(size, bytes)
ReadErr(kind) == Fail(kind) \/ (phase = "failed" /\ UNCHANGED svars)
=============================================================================
