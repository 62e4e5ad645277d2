------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the command: the files found afterwards are those of   *)
(* the machine of Cli, and every input that could not be minified was      *)
(* reported.                                                               *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.VF_IN)
Prop == IOEnv.VF_PROP

VARIABLES l,            \* the record
          fs,           \* the file system of the machine
          k,            \* inputs processed
          troubles      \* which of them could not be minified
vars == <<l, fs, k, troubles>>

Rec == Trace[l]
Fs(list) == [p \in {list[i][1] : i \in 1 .. Len(list)} |-> list[CHOOSE i \in 1 .. Len(list) : list[i][1] = p][2]]
Lib == [x \in {<<Rec.lib[i][1], Rec.lib[i][2]>> : i \in 1 .. Len(Rec.lib)} |->
          Rec.lib[CHOOSE i \in 1 .. Len(Rec.lib) : Rec.lib[i][1] = x[1] /\ Rec.lib[i][2] = x[2]][3]]

Init == l = 0 /\ fs = <<>> /\ k = 0 /\ troubles = <<>>
Begin(n) == l' = n /\ k' = 0 /\ troubles' = <<>> /\ fs' = IF n <= Len(Trace) THEN Fs(Trace[n].fs) ELSE <<>>
Start == l = 0 /\ Begin(1)
Process ==
    /\ l > 0 /\ l <= Len(Trace) /\ k < Len(Rec.args)
    /\ k' = k + 1
    /\ fs' = Step(fs, Rec.opts, Rec.args[k + 1], Lib)
    /\ troubles' = Append(troubles, Trouble(fs, Rec.opts, Rec.args[k + 1], Lib))
    /\ UNCHANGED l

Found == Fs(Rec.found)
FoundGood == Fs(Rec.foundGood)
Bad == {i \in 1 .. Len(troubles) : troubles[i] # ""}
Same(f) == /\ SameFiles(f, Found)
           /\ \A p \in DOMAIN f : f[p] = Dir /\ p \in DOMAIN Fs(Rec.fs) => Node(Found, p) = Dir
Differ(f) == {p \in Files(f) \cup Files(Found) : Node(f, p) # Node(Found, p)}
(* The run without the inputs in trouble was recorded too (when the specification foresaw them). *)
Foreseen == {Rec.good[i] : i \in 1 .. Len(Rec.good)} = (1 .. Len(Rec.args)) \ Bad
Wrong ==
    IF "crash" \in DOMAIN Rec THEN (IF Prop = "C21" \/ Bad = {} THEN {<<Prop, Rec.crash, 0>>} ELSE {})
    ELSE IF Prop = "C20" THEN (IF Bad = {} /\ ~Same(fs) THEN {<<"C20", "files", Differ(fs)>>} ELSE {})
    ELSE (IF Bad # {} /\ Foreseen /\ ~Same(FoundGood) THEN {<<"C21", "not as if they were not there", Differ(FoundGood)>>} ELSE {})
         \cup (IF Bad # {} /\ ~Foreseen /\ ~Same(fs) THEN {<<"C21", "files", Differ(fs)>>} ELSE {})
         \cup (IF \E i \in Bad : ~Rec.reported[i] THEN {<<"C21", "not reported", {i \in Bad : ~Rec.reported[i]}>>} ELSE {})
Finish ==
    /\ l > 0 /\ l <= Len(Trace) /\ k = Len(Rec.args)
    /\ (IF Wrong # {} THEN CSVWrite("%1$s", <<ToJson([rec |-> l, bad |-> Wrong])>>, IOEnv.VF_BAD) ELSE TRUE)
    /\ Begin(l + 1)
Next == Start \/ Process \/ Finish

Watch == TLCSet(7, l)
AllChecked == TLCGet(7) = Len(Trace) + 1
=============================================================================
