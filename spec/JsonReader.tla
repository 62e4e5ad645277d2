----------------------------- MODULE JsonReader -----------------------------
(***************************************************************************)
(* Reading through the streaming JSON minifier, at the level a caller and  *)
(* a source see it, and the machine of the implementation, which must      *)
(* refine it.                                                              *)
(*                                                                         *)
(* The source holds units (characters, or malformed sequences); each of    *)
(* its reads gives some bytes, is interrupted, fails (at byte failAt), or  *)
(* is at the end.  The caller reads into buffers of chosen sizes.  A unit  *)
(* is <<class, width>>; a byte is <<unit number, byte number>>.            *)
(* Classes: "q" quote, "b" backslash, "w" whitespace, "c" anything else,   *)
(* "m" malformed.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

MaxUnits == atoi(IOEnv.VF_N)
Sizes == IF IOEnv.VF_MODE # "sim" THEN 1 .. atoi(IOEnv.VF_SIZES) ELSE {1, 2, 3, 4, 5, 7, 16, 64, 1000}
MaxIntr == atoi(IOEnv.VF_INTR)
Faults == IOEnv.VF_FAULTS = "yes"          \* may the source fail or be malformed?
Emits == IOEnv.VF_OUT # ""                 \* write the schedules (and remember them)
Sim == IOEnv.VF_MODE = "sim"
Defect == IOEnv.VF_DEFECT                  \* a deliberate defect, or "none"

Units == {<<"q", 1>>, <<"b", 1>>, <<"w", 1>>, <<"c", 1>>, <<"c", 2>>, <<"w", 2>>}
         \cup (IF Sim THEN {<<"c", 3>>, <<"c", 4>>, <<"w", 3>>} ELSE {})
         \cup (IF Faults THEN {<<"m", 1>>, <<"m", 2>>} ELSE {})
NoFail == 99999

VARIABLES units,      \* the source's text
          failAt,     \* how many bytes it gives before it fails (NoFail: it does not)
          once,       \* does it fail only once, and then go on?
          missed,     \* failed so, and the caller was not told yet
          given,      \* how many it gave
          intr,       \* interrupted reads left
          size, got,  \* the caller's current buffer and what is in it (size = 0: no call)
          delivered,  \* what the caller was given before
          phase,      \* "reading", "ended", "failed"
          why,        \* of what it failed
          \* the implementation
          cap, ibuf, cont, acc, la, started, carry, instr, esc, pc, pend,
          hist        \* what source and caller did
env == <<units, failAt, once, missed, given, intr>>
obs == <<size, got, delivered, phase, why>>
impl == <<cap, ibuf, cont, acc, la, started, carry, instr, esc, pc, pend>>
vars == <<env, obs, impl, hist>>

Bytes(i, u) == [k \in 1 .. u[2] |-> <<i, k>>]
RECURSIVE AllBytes(_, _)
AllBytes(us, i) == IF i > Len(us) THEN <<>> ELSE Bytes(i, us[i]) \o AllBytes(us, i + 1)
Source == AllBytes(units, 1)

(* --- what the caller may be given --- *)
Quoted(s, c) == IF s = "out" THEN (IF c = "q" THEN "in" ELSE "out")
                ELSE IF s = "esc" THEN "in"
                ELSE IF c = "b" THEN "esc" ELSE IF c = "q" THEN "out" ELSE "in"
Minified(us) ==
    FoldLeft(LAMBDA st, i : [s |-> Quoted(st.s, us[i][1]),
                             out |-> IF st.s = "out" /\ us[i][1] = "w" THEN st.out ELSE st.out \o Bytes(i, us[i])],
             [s |-> "out", out |-> <<>>], [i \in 1 .. Len(us) |-> i]).out

(* The units that are whole before the first malformed one and before the failure. *)
RECURSIVE Sound(_, _)
Sound(k, room) == IF k >= Len(units) \/ units[k + 1][1] = "m" \/ units[k + 1][2] > room THEN k
                  ELSE Sound(k + 1, room - units[k + 1][2])
SoundUnits == SubSeq(units, 1, Sound(0, failAt))
Want == Minified(SoundUnits)
MalformedAt == {i \in 1 .. Len(units) : units[i][1] = "m"}
Faulty == failAt # NoFail \/ MalformedAt # {}

PrefixOnly == IsPrefix(delivered \o got, Want)
EndIsComplete == phase = "ended" => ~Faulty /\ delivered = Want /\ ~missed
FailsForAReason == phase = "failed" => Faulty /\ (why = "io" => failAt # NoFail) /\ (why = "utf8" => MalformedAt # {})
NoEmptySuccess == (pc = "return" /\ size > 0 /\ got = <<>>) => ~Faulty /\ delivered = Want

(* --- the implementation --- *)
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

RECURSIVE RandomUnits(_)
RandomUnits(k) == IF k = 0 THEN <<>> ELSE <<RandomElement(Units)>> \o RandomUnits(k - 1)

Init ==
    /\ units \in (IF Sim THEN {<<>>} ELSE UNION {[1 .. k -> Units] : k \in 0 .. MaxUnits})
    /\ failAt = NoFail /\ once = FALSE /\ missed = FALSE
    /\ given = 0 /\ intr = MaxIntr
    /\ size = 0 /\ got = <<>> /\ delivered = <<>> /\ phase = "reading" /\ why = ""
    /\ cap = 0 /\ ibuf = <<>> /\ cont = TRUE /\ acc = <<>> /\ la = 0 /\ started = FALSE
    /\ carry = <<>> /\ instr = FALSE /\ esc = 0 /\ pc = "setup" /\ pend = ""
    /\ hist = <<>>

Note(e) == hist' = IF Emits THEN Append(hist, e) ELSE hist

(* The text and where the source will fail are chosen. *)
Setup ==
    /\ pc = "setup"
    /\ units' = IF Sim THEN RandomUnits(RandomElement(0 .. MaxUnits)) ELSE units
    /\ IF Faults /\ ~(\E i \in 1 .. Len(units') : units'[i][1] = "m")
       THEN failAt' \in Pick(0 .. Len(AllBytes(units', 1)))
       ELSE failAt' = NoFail
    /\ once' \in (IF failAt' = NoFail THEN {FALSE} ELSE Pick(BOOLEAN))
    /\ pc' = "idle"
    /\ UNCHANGED <<missed, given, intr, obs, cap, ibuf, cont, acc, la, started, carry, instr, esc, pend, hist>>

Call ==
    /\ pc = "idle" /\ phase = "reading"
    /\ \E s \in Pick(Sizes) :
          /\ size' = s
          /\ cap' = IF cap = 0 THEN s ELSE cap
          /\ Note(<<"call", s>>)
    /\ got' = <<>>
    /\ pc' = IF pend # "" THEN "error" ELSE IF started THEN "carry" ELSE "decode"
    /\ UNCHANGED <<env, delivered, phase, why, ibuf, cont, acc, la, started, carry, instr, esc, pend>>

(* Bytes of the last kept character that did not fit. *)
Carry ==
    /\ pc = "carry"
    /\ LET k == IF Len(carry) < size - Len(got) THEN Len(carry) ELSE size - Len(got)
       IN /\ got' = got \o SubSeq(carry, 1, k)
          /\ carry' = SubSeq(carry, k + 1, Len(carry))
          /\ pc' = IF Len(got') = size \/ la = 0 THEN "return" ELSE "decode"
    /\ UNCHANGED <<env, size, delivered, phase, why, cap, ibuf, cont, acc, la, started, instr, esc, pend, hist>>

NeedSource == pc = "decode" /\ ibuf = <<>> /\ cont
Rest == Len(Source) - given
Limit == IF failAt # NoFail THEN failAt - given ELSE Rest
SourceGives ==
    /\ NeedSource /\ Limit > 0
    /\ \E k \in Pick(1 .. (IF cap < Limit THEN cap ELSE Limit)) :
          /\ ibuf' = SubSeq(Source, given + 1, given + k)
          /\ given' = given + k
          /\ Note(<<"give", k>>)
          /\ cont' = (Defect = "shortEof" => k = cap)
    /\ UNCHANGED <<units, failAt, once, missed, intr, obs, cap, acc, la, started, carry, instr, esc, pc, pend>>
SourceEnds ==
    /\ NeedSource /\ failAt = NoFail /\ Rest = 0
    /\ cont' = FALSE /\ Note(<<"end", 0>>)
    /\ UNCHANGED <<env, obs, cap, ibuf, acc, la, started, carry, instr, esc, pc, pend>>
SourceInterrupted ==
    /\ NeedSource /\ intr > 0 /\ (Sim => RandomElement(1 .. 4) = 1)
    /\ intr' = intr - 1 /\ Note(<<"intr", 0>>)
    /\ IF Defect = "noRetry" THEN pc' = "error" /\ pend' = "io" ELSE UNCHANGED <<pc, pend>>
    /\ UNCHANGED <<units, failAt, once, missed, given, obs, cap, ibuf, cont, acc, la, started, carry, instr, esc>>
SourceFails ==
    /\ NeedSource /\ failAt # NoFail /\ Limit = 0
    /\ Note(<<"fail", failAt>>)
    /\ IF Defect = "swallow" THEN cont' = FALSE /\ UNCHANGED <<pc, pend>>
       ELSE IF Len(got) > 0 THEN pc' = "return" /\ pend' = "io" /\ UNCHANGED cont
       ELSE pc' = "error" /\ pend' = "io" /\ UNCHANGED cont
    /\ acc' = IF Defect = "loseBytes" THEN <<>> ELSE acc
    /\ la' = IF Defect = "loseNext" THEN 0 ELSE la
    /\ failAt' = IF once THEN NoFail ELSE failAt
    /\ missed' = once
    /\ UNCHANGED <<units, once, given, intr, obs, cap, ibuf, started, carry, instr, esc>>

BadUtf8 == IF Len(got) > 0 THEN pc' = "return" ELSE pc' = "error"
TakeByte ==
    /\ pc = "decode" /\ ibuf # <<>>
    /\ ibuf' = Tail(ibuf)
    /\ LET b == Head(ibuf)
           u == units[b[1]]
           a == Append(acc, b)
       IN IF u[1] = "m" /\ Len(a) = u[2]
          THEN /\ acc' = <<>> /\ pend' = "utf8" /\ BadUtf8
          ELSE IF Len(a) = u[2]
          THEN acc' = a /\ pc' = "char" /\ UNCHANGED pend
          ELSE acc' = a /\ UNCHANGED <<pc, pend>>
    /\ UNCHANGED <<env, obs, cap, cont, la, started, carry, instr, esc, hist>>
NoMoreBytes ==
    /\ pc = "decode" /\ ibuf = <<>> /\ ~cont
    /\ IF acc # <<>> THEN /\ pend' = "utf8" /\ acc' = <<>> /\ BadUtf8
       ELSE pc' = "char" /\ UNCHANGED <<acc, pend>>
    /\ UNCHANGED <<env, obs, cap, ibuf, cont, la, started, carry, instr, esc, hist>>

(* The next character is known (acc; nothing at the end): the one before it is filtered. *)
Char ==
    /\ pc = "char"
    /\ acc' = <<>>
    /\ IF ~started
       THEN /\ started' = TRUE
            /\ la' = IF acc = <<>> THEN 0 ELSE acc[1][1]
            /\ pc' = "carry"
            /\ UNCHANGED <<got, carry, instr, esc>>
       ELSE LET c == units[la][1]
                in2 == IF ~instr THEN c = "q" ELSE ~(esc = 0 /\ c = "q")
                kept == in2 \/ c # "w"
                bs == Bytes(la, units[la])
                k == IF Len(bs) < size - Len(got) THEN Len(bs) ELSE size - Len(got)
            IN /\ instr' = in2
               /\ esc' = IF instr THEN (IF esc > 0 THEN esc - 1 ELSE IF c = "b" THEN 1 ELSE 0) ELSE 0
               /\ la' = IF acc = <<>> THEN 0 ELSE acc[1][1]
               /\ IF kept THEN got' = got \o SubSeq(bs, 1, k) /\ carry' = IF Defect = "dropCarry" THEN <<>> ELSE SubSeq(bs, k + 1, Len(bs))
                  ELSE UNCHANGED <<got, carry>>
               /\ pc' = IF Len(got') = size \/ la' = 0 THEN "return" ELSE "decode"
               /\ UNCHANGED started
    /\ UNCHANGED <<env, size, delivered, phase, why, cap, ibuf, cont, pend, hist>>

Return ==
    /\ pc = "return"
    /\ delivered' = delivered \o got
    /\ phase' = IF got = <<>> THEN "ended" ELSE phase
    /\ got' = <<>> /\ size' = 0 /\ pc' = "idle"
    /\ UNCHANGED <<env, why, cap, ibuf, cont, acc, la, started, carry, instr, esc, pend, hist>>
ReturnError ==
    /\ pc = "error"
    /\ IF pend = "io" /\ failAt = NoFail /\ missed   \* it goes on after this
       THEN phase' = phase /\ why' = why /\ pend' = "" /\ missed' = FALSE
       ELSE phase' = "failed" /\ why' = pend /\ UNCHANGED <<pend, missed>>
    /\ got' = <<>> /\ size' = 0 /\ pc' = "idle"
    /\ UNCHANGED <<units, failAt, once, given, intr, delivered, cap, ibuf, cont, acc, la, started, carry, instr, esc, hist>>

(* The schedule of a whole reading is written. *)
Emit ==
    /\ Emits /\ pc = "idle" /\ phase # "reading"
    /\ LET FailedAt == LET f == {j \in 1 .. Len(hist) : hist[j][1] = "fail"}
                       IN IF f = {} THEN failAt ELSE hist[CHOOSE j \in f : TRUE][2]
           of(k) == [i \in 1 .. Len(SelectSeq(hist, LAMBDA e : e[1] \in k)) |-> SelectSeq(hist, LAMBDA e : e[1] \in k)[i]]
       IN CSVWrite("%1$s", <<ToJson([units |-> units, failAt |-> IF once THEN FailedAt ELSE failAt, once |-> once,
                                     src |-> [i \in 1 .. Len(of({"give", "intr"})) |->
                                                 IF of({"give", "intr"})[i][1] = "intr" THEN 0 ELSE of({"give", "intr"})[i][2]],
                                     bufs |-> [i \in 1 .. Len(of({"call"})) |-> of({"call"})[i][2]]])>>, IOEnv.VF_OUT)
    /\ pc' = "done"
    /\ UNCHANGED <<env, obs, cap, ibuf, cont, acc, la, started, carry, instr, esc, pend, hist>>

Reader == Call \/ Carry \/ TakeByte \/ NoMoreBytes \/ Char \/ Return \/ ReturnError
SourceActs == SourceGives \/ SourceEnds \/ SourceInterrupted \/ SourceFails
Next == Setup \/ Reader \/ SourceActs \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Setup \/ Reader \/ SourceGives \/ SourceEnds \/ SourceFails)

(* Every reading ends (interruptions are bounded). *)
Terminates == <>(phase # "reading")
=============================================================================
