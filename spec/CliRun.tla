------------------------------- MODULE CliRun -------------------------------
(***************************************************************************)
(* Runs of the command line: file systems, options and argument lists, and *)
(* the machine of Cli on them with what a user relies on.  The starting    *)
(* points are written out, to be replayed with the real command.           *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, CSV, IOUtils

Focus == IOEnv.VF_START
Defect == IOEnv.VF_DEFECT

(* --- contents; what becomes of them is abstract here --- *)
Texts == {"js", "js2", "css", "css2", "json", "empty", "bom", "wide", "big", "crlf"}
Rejected == {"cssbad", "cssbad2"}
Lib == [x \in Types \X (Texts \cup Rejected \cup {"min:" \o c : c \in Texts \cup Rejected}) |->
            IF x[1] = "css" /\ x[2] \in Rejected THEN Reject
            ELSE IF Len(x[2]) > 4 /\ SubSeq(x[2], 1, 4) = "min:" THEN x[2] ELSE "min:" \o x[2]]

Rel(cs) == [abs |-> FALSE, comps |-> cs]
Abs(cs) == [abs |-> TRUE, comps |-> cs]

Empty == [p \in {<<>>, Base, Cwd} |-> Dir]
RECURSIVE With(_, _)
With(fs, s) == IF s = <<>> THEN fs ELSE With(MkAll(Put(fs, Head(s)[1], Head(s)[2]), <<>>, SubSeq(Head(s)[1], 1, Len(Head(s)[1]) - 1)).fs, Tail(s))
InW(cs, c) == <<Cwd \o cs, c>>
InB(cs, c) == <<Base \o cs, c>>
Few(fs, opts, args) == [fs |-> fs, opts |-> opts, args |-> args]
O(t, o) == [type |-> t, out |-> o]

(* One file of every name, content and type, with and without an earlier output. *)
Names == {"a.js", "a.css", "a.json", "A.JS", "b.CsS", "c.Json", "x.y.js", "x.js.css", "noext", ".js", "..css", "dot.", "a.jsx", "a.min.js", "sp ace.css", "a.html", "json"}
Outs1(n, t) == <<Stem(n) \o ".min." \o (IF t = "" THEN Lower(Ext(n)) ELSE t)>>
CasesTypes ==
    {Few(With(Empty, <<InW(<<n>>, c)>> \o (IF k = None THEN <<>> ELSE <<InW(Outs1(n, t), k)>>)), O(t, NoOut), <<Rel(<<n>>)>>) :
        n \in Names, c \in Texts \cup Rejected \cup {Dir, NotText, Locked}, t \in {"", "js", "css", "json"}, k \in {None, "big", "empty", Dir, Locked}}
    
(* Where the output goes. *)
World == With(Empty, <<InW(<<"a.js">>, "js"), InW(<<"b.css">>, "css"), InW(<<"bad.css">>, "cssbad"), InW(<<"d", "a.js">>, "js2"),
                      InW(<<"d", "e", "j.json">>, "json"), InB(<<"top.js">>, "js"), InB(<<"o", "old.txt">>, "big"), InW(<<"f">>, "css2"),
                      InW(<<"lock.js">>, Locked), InW(<<"sub">>, Dir)>>)
OutOpts == {NoOut, Rel(<<"new.js">>), Rel(<<"new", "deep", "x.out">>), Rel(<<"f">>), Rel(<<"sub">>), Rel(<<".">>), Rel(<<"..">>),
            Rel(<<"d", "..">>), Rel(<<"d">>), Rel(<<"f", "x.js">>), Rel(<<"a.js">>), Rel(<<"b.css">>), Rel(<<"..", "o">>), Rel(<<"..", "n.js">>),
            Abs(<<"o">>), Abs(<<"abs.js">>), Abs(<<"p", "q", "abs.js">>), Rel(<<"lock.js">>), Rel(<<"d", "e">>), Rel(<<"noext">>), Rel(<<"x.min.css">>)}
ArgsOne == {Rel(<<"a.js">>), Rel(<<"b.css">>), Rel(<<"bad.css">>), Rel(<<"d", "a.js">>), Rel(<<".", "a.js">>), Rel(<<"d", "..", "a.js">>),
            Rel(<<"..", "top.js">>), Abs(<<"top.js">>), Abs(<<"w", "a.js">>), Rel(<<"gone.js">>), Rel(<<"f">>), Rel(<<"d">>),
            Rel(<<"d", "e", "j.json">>), Rel(<<"gone", "a.js">>), Rel(<<"f", "a.js">>), Rel(<<"a.min.js">>), Rel(<<"d", ".", "e", "..", "a.js">>)}
CasesOuts ==
    {Few(World, O("", o), <<a>>) : o \in OutOpts, a \in ArgsOne}
    \cup {Few(World, O("", o), <<a, b>>) : o \in OutOpts, a \in ArgsOne, b \in ArgsOne}
    \cup {Few(World, O(t, o), <<a>>) : o \in OutOpts, a \in ArgsOne, t \in Types}

(* Lists of inputs, good and bad. *)
Mixed == With(Empty, <<InW(<<"a.js">>, "js"), InW(<<"bad.css">>, "cssbad"), InW(<<"bin.json">>, NotText), InW(<<"t.txt">>, "js2"), InW(<<"e.css">>, "css"), InW(<<"worse.css">>, "cssbad2")>>)
Old == {<<>>, <<InW(<<"a.min.js">>, "big"), InW(<<"bad.min.css">>, "css2"), InW(<<"bin.min.json">>, "json"), InW(<<"e.min.css">>, Dir),
                InW(<<"gone.min.js">>, "js"), InW(<<"t.min.txt">>, "js"), InW(<<"worse.min.css">>, "empty")>>}
ArgsMixed == {Rel(<<"a.js">>), Rel(<<"bad.css">>), Rel(<<"bin.json">>), Rel(<<"t.txt">>), Rel(<<"gone.js">>), Rel(<<"e.css">>), Rel(<<"a.min.js">>), Rel(<<"worse.css">>)}
Lists(s, n) == UNION {[1 .. k -> s] : k \in 0 .. n}
CasesLists ==
    {Few(With(Mixed, k \o d), O("", o), l) : k \in Old, d \in {<<InW(<<"out">>, Dir)>>}, o \in {NoOut, Rel(<<"out">>), Rel(<<"one.min.js">>)}, l \in Lists(ArgsMixed, 3)}

(* Anything. *)
Pick(s) == RandomElement(s)
RECURSIVE PickList(_, _)
PickList(s, n) == IF n = 0 THEN <<>> ELSE <<Pick(s)>> \o PickList(s, n - 1)
SomeFiles == {<<"a.js">>, <<"b.css">>, <<"c.json">>, <<"d", "a.js">>, <<"d", "b.css">>, <<"a.min.js">>, <<"b.min.css">>, <<"d", "a.min.js">>, <<"out">>, <<"out", "a.min.js">>,
              <<"x.txt">>, <<"a.css">>, <<"d", "e", "a.js">>, <<"out", "d", "a.min.js">>, <<"A.JS">>, <<"A.min.js">>, <<"d">>, <<"c.min.json">>, <<"two words.js">>}
RECURSIVE Clash(_, _)
Clash(p, l) == l # <<>> /\ (LET q == Head(l)[1] IN IsPrefix(p, q) \/ (IsPrefix(q, p) /\ Head(l)[2] # Dir) \/ Clash(p, Tail(l)))
RECURSIVE AnyFiles(_, _)
AnyFiles(l, n) ==
    IF n = 0 THEN l
    ELSE LET p == Cwd \o Pick(SomeFiles)
             c == Pick(Texts \cup Rejected \cup {Dir, NotText, Locked} \cup Texts)
         IN AnyFiles(IF Clash(p, l) THEN l ELSE Append(l, <<p, c>>), n - 1)
CaseAny ==
    LET files == AnyFiles(<<>>, Pick(2 .. 9))
        (* mostly files that are there *)
        there == {SubSeq(files[i][1], 3, Len(files[i][1])) : i \in 1 .. Len(files)} \cup {Pick(SomeFiles)}
        args == [i \in 1 .. Pick(1 .. 5) |-> LET p == Pick(there) IN IF Pick(1 .. 5) = 1 THEN Abs(<<"w">> \o p) ELSE IF Pick(1 .. 4) = 1 THEN Rel(<<".", "..", "w">> \o p) ELSE Rel(p)]
    IN Few(With(Empty, files), O(Pick({"", "", "", "js", "css", "json"}), IF Pick(1 .. 2) = 1 THEN NoOut ELSE Rel(Pick(SomeFiles \cup {<<"out">>, <<"n", "m">>, <<"d">>}))), args)

(* Which inputs of the list can be minified when their turn comes. *)
RECURSIVE GoodOf(_, _, _, _)
GoodOf(f, o, l, i) == IF i > Len(l) THEN {} ELSE GoodOf(Step(f, o, l[i], Lib), o, l, i + 1) \cup (IF Trouble(f, o, l[i], Lib) = "" THEN {i} ELSE {})

VARIABLES fs, fs0, opts, args, done, phase
vars == <<fs, fs0, opts, args, done, phase>>

Cases == CASE Focus = "types" -> CasesTypes [] Focus = "outs" -> CasesOuts [] Focus = "lists" -> CasesLists [] Focus = "any" -> {}
Style == (Len(ToJson(fs0)) + Len(ToJson(args))) % 4
Listed(f) == LET ps == SetToSeq(DOMAIN f) IN [i \in 1 .. Len(ps) |-> <<ps[i], f[ps[i]]>>]
Init == /\ phase = "choose" /\ fs = Empty /\ fs0 = Empty /\ opts = O("", NoOut) /\ args = <<>> /\ done = <<>>
Take(c) ==
    /\ phase' = "run" /\ fs' = c.fs /\ fs0' = c.fs /\ opts' = c.opts /\ args' = c.args /\ done' = <<>>
Choose ==
    /\ phase = "choose"
    /\ IF Focus = "any" THEN LET c == CaseAny IN Take(c) ELSE \E c \in Cases : Take(c)
Write ==
    /\ phase = "run"
    /\ CSVWrite("%1$s", <<ToJson([fs |-> Listed(fs0), opts |-> opts, args |-> args, good |-> GoodOf(fs0, opts, args, 1), style |-> Style])>>, IOEnv.VF_OUT)
    /\ phase' = "steps" /\ UNCHANGED <<fs, fs0, opts, args, done>>
Broken(a) ==
    CASE Defect = "stop" /\ Trouble(fs, opts, a, Lib) # "" -> [fs |-> fs, n |-> Len(args)]
      [] Defect = "truncate" /\ Trouble(fs, opts, a, Lib) = "rejected" ->
            [fs |-> LET t == Target(fs, opts, a) p == Walk(fs, From(t), t.comps) IN IF Node(fs, p) \in {None, Dir, Locked} THEN fs ELSE Put(fs, p, "empty"), n |-> 1]
      [] Defect = "inplace" /\ Trouble(fs, opts, a, Lib) = "" -> [fs |-> Put(fs, Source(fs, a), "empty"), n |-> 1]
      [] OTHER -> [fs |-> Step(fs, opts, a, Lib), n |-> 1]
Process ==
    /\ phase = "steps" /\ args # <<>>
    /\ LET b == Broken(Head(args)) IN fs' = b.fs /\ done' = done \o SubSeq(args, 1, b.n) /\ args' = SubSeq(args, b.n + 1, Len(args))
    /\ UNCHANGED <<fs0, opts, phase>>
Next == Choose \/ Write \/ Process
Spec == Init /\ [][Next]_vars

(* --- what a user relies on --- *)
(* An input changes nothing but its own output and the directories on the way to it. *)
OnlyTheOutput ==
    [][Process =>
          LET a == Head(args)
              t == Target(fs, opts, a)
              p == Walk(fs', From(t), t.comps)
          IN \A q \in DOMAIN fs \cup DOMAIN fs' :
                \/ Node(fs, q) = Node(fs', q)
                \/ q = p /\ Trouble(fs, opts, a, Lib) = "" /\ Node(fs', q) = Lib[<<TypeOf(opts, Name(a)), Node(fs, Source(fs, a))>>]
                \/ Node(fs, q) = None /\ Node(fs', q) = Dir /\ Trouble(fs, opts, a, Lib) = ""]_vars
(* A run is the run of its good inputs alone. *)
RECURSIVE Run(_, _), RunGood(_, _)
Run(f, l) == IF l = <<>> THEN f ELSE Run(Step(f, opts, Head(l), Lib), Tail(l))
RunGood(f, l) == IF l = <<>> THEN f ELSE RunGood(IF Trouble(f, opts, Head(l), Lib) # "" THEN f ELSE Written(f, opts, Head(l), Lib), Tail(l))
BadInputsDontMatter == phase = "steps" => fs = RunGood(fs0, done)
(* Without -o nothing is created but NAME.min.TYPE beside an input; inputs stay. *)
InputsStay == phase = "steps" /\ opts.out = NoOut =>
    \A p \in Files(fs0) : Ext(Stem(p[Len(p)])) # "min" => Node(fs, p) = fs0[p]
=============================================================================
