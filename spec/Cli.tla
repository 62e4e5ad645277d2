-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line as a machine over a file system: one step per input.   *)
(*                                                                         *)
(* A path is a sequence of names from the root.  The file system maps      *)
(* paths to Dir or to a content; a content is an identifier.  What a       *)
(* library function makes of a content is given by the function lib, from  *)
(* <<type, content>> to a content or Reject.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Dir == "<dir>"
None == "<none>"
Reject == "<reject>"
Locked == "<locked>"          \* a file that may neither be read nor written
NotText == "<nottext>"        \* a file that is not UTF-8
Types == {"css", "js", "json"}

Base == <<"base">>            \* everything happens under /base
Cwd == <<"base", "w">>        \* where the command is run

(* --- names --- *)
Dots(n) == {i \in 2 .. Len(n) : SubSeq(n, i, i) = "."}
MaxOf(s) == CHOOSE x \in s : \A y \in s : y <= x
Ext(n) == IF Dots(n) = {} THEN "" ELSE SubSeq(n, MaxOf(Dots(n)) + 1, Len(n))
Stem(n) == IF Dots(n) = {} THEN n ELSE SubSeq(n, 1, MaxOf(Dots(n)) - 1)
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Small == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerChar(c) == IF \E i \in 1 .. 26 : Upper[i] = c THEN Small[CHOOSE i \in 1 .. 26 : Upper[i] = c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerChar(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))

TypeOf(opts, n) == IF opts.type # "" THEN opts.type ELSE IF Lower(Ext(n)) \in Types THEN Lower(Ext(n)) ELSE "unknown"
MinName(n, t) == Stem(n) \o ".min." \o t

(* --- the file system --- *)
Node(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE None
Put(fs, p, c) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN c ELSE fs[q]]
Nowhere == <<"<nowhere>">>
RECURSIVE Walk(_, _, _)
Walk(fs, at, cs) ==
    IF cs = <<>> THEN at
    ELSE IF Node(fs, at) # Dir THEN Nowhere
    ELSE Walk(fs, CASE Head(cs) = "." -> at [] Head(cs) = ".." -> SubSeq(at, 1, Len(at) - 1) [] OTHER -> Append(at, Head(cs)), Tail(cs))
RECURSIVE MkAll(_, _, _)
MkAll(fs, at, cs) ==
    IF Node(fs, at) \notin {Dir, None} THEN [ok |-> FALSE, fs |-> fs, at |-> at]
    ELSE LET f == IF Node(fs, at) = None THEN Put(fs, at, Dir) ELSE fs
         IN IF cs = <<>> THEN [ok |-> TRUE, fs |-> f, at |-> at]
            ELSE MkAll(f, CASE Head(cs) = "." -> at [] Head(cs) = ".." -> SubSeq(at, 1, Len(at) - 1) [] OTHER -> Append(at, Head(cs)), Tail(cs))

(* A path as given on the command line: components from /base or from the working directory. *)
From(a) == IF a.abs THEN Base ELSE Cwd
Source(fs, a) == Walk(fs, From(a), a.comps)
Name(a) == a.comps[Len(a.comps)]

(* --- one input --- *)
(* Why an input can not be minified ("": it can). *)
Trouble(fs, opts, a, lib) ==
    LET t == TypeOf(opts, Name(a))
        c == Node(fs, Source(fs, a))
    IN CASE t = "unknown" -> "type"
         [] c = None -> "missing"
         [] c \in {Dir, Locked} -> "unreadable"
         [] c = NotText -> "text"
         [] lib[<<t, c>>] = Reject -> "rejected"
         [] OTHER -> ""

NoOut == [abs |-> FALSE, comps |-> <<>>]
Renamed(cs, t) == [cs EXCEPT ![Len(cs)] = MinName(@, t)]
Plain(cs) == SelectSeq(cs, LAMBDA c : c \notin {".", ".."})
(* Where the minified text of an input goes. *)
Target(fs, opts, a) ==
    LET t == TypeOf(opts, Name(a)) IN
    IF opts.out = NoOut THEN [abs |-> a.abs, comps |-> Renamed(a.comps, t)]
    ELSE IF Node(fs, Source(fs, opts.out)) = Dir
    THEN [abs |-> opts.out.abs, comps |-> opts.out.comps \o (IF a.abs THEN Base ELSE <<>>) \o Renamed(Plain(a.comps), t)]
    ELSE opts.out

Written(fs, opts, a, lib) ==
    LET tgt == Target(fs, opts, a)
        mk == MkAll(fs, From(tgt), SubSeq(tgt.comps, 1, Len(tgt.comps) - 1))
        p == Append(mk.at, Name(tgt))
    IN IF ~mk.ok \/ Node(mk.fs, p) \in {Dir, Locked} THEN mk.fs
       ELSE Put(mk.fs, p, lib[<<TypeOf(opts, Name(a)), Node(fs, Source(fs, a))>>])

Step(fs, opts, a, lib) == IF Trouble(fs, opts, a, lib) # "" THEN fs ELSE Written(fs, opts, a, lib)

(* The files of a file system. *)
Files(fs) == {p \in DOMAIN fs : fs[p] # Dir}
SameFiles(f, g) == Files(f) = Files(g) /\ \A p \in Files(f) : f[p] = g[p]
=============================================================================
