----------------------------- MODULE JsTokens -----------------------------
(***************************************************************************)
(* What the functions of the token list API may do to a token list.  A     *)
(* token is <<kind, text>>.  b: the tokens before, a: the tokens after.    *)
(***************************************************************************)
EXTENDS JsConform

Kind(t) == t[1]
Txt(t) == t[2]
IsWs(t) == Kind(t) = "Char" /\ Txt(t) \in {" ", "\t", "\n"}
IsCom(t) == Kind(t) = "Comment"
Blank(t) == IsWs(t) \/ IsCom(t)
Semi(t) == t = <<"Char", ";">>
Closing(t) == t = <<"Char", "}">>
StrTok(t) == Kind(t) = "String" /\ First(Txt(t)) # "`"
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x

(***************************************************************************)
(* Declarations: << position of the name, position of the literal >> of    *)
(* every name declared by var or let with a string as its whole value.     *)
(***************************************************************************)
SigPos(b) == SelectSeq([i \in 1 .. Len(b) |-> i], LAMBDA i : ~Blank(b[i]) /\ Kind(b[i]) # "License")

Opens == {"(", "[", "{"}
Closes == {")", "]", "}"}
(* Walking back from the significant token s (depth: brackets to be opened), is there a var or let whose list s is in? *)
RECURSIVE InDecl(_, _, _, _)
InDecl(b, S, s, depth) ==
    IF s = 0 THEN FALSE
    ELSE LET t == b[S[s]] IN
         IF Kind(t) = "Char" /\ Txt(t) \in Closes THEN InDecl(b, S, s - 1, depth + 1)
         ELSE IF Kind(t) = "Char" /\ Txt(t) \in Opens THEN (IF depth = 0 THEN FALSE ELSE InDecl(b, S, s - 1, depth - 1))
         ELSE IF depth > 0 THEN InDecl(b, S, s - 1, depth)
         ELSE IF Semi(t) THEN FALSE
         ELSE IF t \in {<<"Keyword", "var">>, <<"Keyword", "let">>} THEN TRUE
         ELSE InDecl(b, S, s - 1, depth)

VarLet(t) == t \in {<<"Keyword", "var">>, <<"Keyword", "let">>}

Declarations(b) ==
    LET S == SigPos(b)
        n == Len(S)
        cand == {s \in 2 .. n - 3 : /\ Kind(b[S[s]]) = "Other"
                                    /\ b[S[s + 1]] = <<"Operation", "=">>
                                    /\ Kind(b[S[s + 2]]) = "String"
                                    /\ b[S[s + 3]] \in {<<"Char", ",">>, <<"Char", ";">>}
                                    /\ \/ VarLet(b[S[s - 1]])
                                       \/ b[S[s - 1]] = <<"Char", ",">> /\ InDecl(b, S, s - 1, 0)}
    IN {[name |-> S[s], value |-> S[s + 2], first |-> VarLet(b[S[s - 1]])] : s \in cand}

(***************************************************************************)
(* Aggregation into variables.                                             *)
(***************************************************************************)
(* The declarations that were created: [ok, vars: sequence of <<name, literal>>, n: tokens]. *)
EqPos(s) == CHOOSE i \in 1 .. Len(s) : Ch(s, i) = "=" /\ \A j \in 1 .. i - 1 : Ch(s, j) # "="
Created(hd) ==
    LET n == Len(hd)
        ok == /\ n >= 3 /\ n % 2 = 1
              /\ hd[1] = <<"Keyword", "var">>
              /\ Semi(hd[n])
              /\ \A i \in 2 .. n - 1 : IF i % 2 = 0 THEN Kind(hd[i]) = "CreatedVarDecl" /\ \E j \in 2 .. Len(Txt(hd[i])) - 1 : Ch(Txt(hd[i]), j) = "="
                                       ELSE hd[i] = <<"Char", ",">>
    IN IF n = 0 THEN [ok |-> TRUE, vars |-> <<>>]
       ELSE IF ~ok THEN [ok |-> FALSE, vars |-> <<>>]
       ELSE [ok |-> TRUE, vars |-> [k \in 1 .. (n - 1) \div 2 |->
              LET s == Txt(hd[2 * k]) e == EqPos(s) IN <<SubSeq(s, 1, e - 1), SubSeq(s, e + 1, Len(s))>>]]

(* What stands before the tokens of the source: the created part, then the separation. *)
Head0(run) == SubSeq(run.a, 1, Len(run.a) - Len(run.b))
Body(run) == SubSeq(run.a, Len(run.a) - Len(run.b) + 1, Len(run.a))
CreatedPart(run) ==
    LET hd == Head0(run) k == Len(run.sep)
    IN IF k > 0 /\ Len(hd) >= k /\ SubSeq(hd, Len(hd) - k + 1, Len(hd)) = run.sep THEN SubSeq(hd, 1, Len(hd) - k) ELSE hd

(* The lexemes of the source where the k-th string token of b is replaced by subst[k] (<<>>: it stays), after `before`. *)
StrIdx(b) == SelectSeq([i \in 1 .. Len(b) |-> i], LAMBDA i : Kind(b[i]) = "String")
LexStr(toks) == SelectSeq([i \in 1 .. Len(toks) |-> i], LAMBDA i : IsQuoted(toks[i]))
SameStrings(toks, b) ==
    LET p == StrIdx(b) q == LexStr(toks)
    IN Len(p) = Len(q) /\ \A k \in 1 .. Len(p) : Txt(b[p[k]]) = toks[q[k]][2]
Subst(toks, b, F(_)) ==
    LET p == StrIdx(b) q == LexStr(toks)
        rank(i) == CHOOSE k \in 1 .. Len(q) : q[k] = i
    IN FlattenSeq([i \in 1 .. Len(toks) |-> IF IsQuoted(toks[i]) THEN F(p[rank(i)]) ELSE <<toks[i]>>])

(* The printed text is these tokens. *)
Glue(toks) == [i \in 1 .. Len(toks) + 1 |-> IF i = 1 THEN "any" ELSE IF i = Len(toks) + 1 THEN "end" ELSE GapKind(toks[i - 1], toks[i], {})]
Drop(s, k) == SubSeq(s, k + 1, Len(s))
(* Empty statements at the beginning may be cleaned away. *)
RECURSIVE Empties(_, _)
Empties(toks, i) == IF i <= Len(toks) /\ toks[i][2] = ";" THEN Empties(toks, i + 1) ELSE i - 1
Printed(toks, out, lead) ==
    LET at(k) == LET t == SubSeq(toks, 1, lead) \o Drop(toks, lead + k) IN JsWalk(t, Glue(t), out)
        ks == {k \in 0 .. Empties(Drop(toks, lead), 1) : at(k).why = ""}
    IN IF ks # {} THEN at(CHOOSE k \in ks : TRUE) ELSE at(0)

PunctTok(s) == <<"=", s>>
SepToks(run) == IF run.sep = <<>> \/ IsWs(run.sep[1]) THEN <<>>
                ELSE IF Kind(run.sep[1]) = "License" THEN << <<"Lic", Txt(run.sep[1])>> >> ELSE <<PunctTok(Txt(run.sep[1]))>>
CreatedToks(vars) ==
    IF vars = <<>> THEN <<>>
    ELSE <<PunctTok("var")>> \o FlattenSeq([k \in 1 .. Len(vars) |-> (IF k > 1 THEN <<PunctTok(",")>> ELSE <<>>) \o << <<"Id", vars[k][1]>>, PunctTok("="), <<"Str", vars[k][2]>> >>])
         \o <<PunctTok(";")>>

C14Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C14", run.st>>}
    ELSE IF Len(run.a) < Len(run.b) THEN {<<"C14", "tokens are missing">>}
    ELSE
    LET cr == Created(CreatedPart(run))
        body == Body(run)
        decls == Declarations(run.b)
        ByVar(i) == Kind(body[i]) = "CreatedVar" /\ \E k \in 1 .. Len(cr.vars) : cr.vars[k] = <<Txt(body[i]), Txt(run.b[i])>>
        ByName(i) == /\ Kind(body[i]) = "Other" /\ StartsWith(Txt(body[i]), "r_")
                     /\ \E d \in decls : run.b[d.name] = body[i] /\ Txt(run.b[d.value]) = Txt(run.b[i])
        wrong == {i \in 1 .. Len(run.b) : body[i] # run.b[i] /\ ~(StrTok(run.b[i]) /\ (ByVar(i) \/ ByName(i)))}
        names == {cr.vars[k][1] : k \in 1 .. Len(cr.vars)}
        lits == {Txt(run.b[i]) : i \in {j \in 1 .. Len(run.b) : StrTok(run.b[j])}}
        bad == Bad(~cr.ok, <<"C14", "declarations">>)
               \cup Bad(cr.ok /\ wrong # {}, <<"C14", "token", IF wrong = {} THEN 0 ELSE CHOOSE i \in wrong : \A j \in wrong : i <= j>>)
               \cup Bad(Cardinality(names) # Len(cr.vars), <<"C14", "declared twice">>)
               \cup Bad(\E k \in 1 .. Len(cr.vars) : cr.vars[k][2] \notin lits, <<"C14", "spelling">>)
               \cup Bad(cr.vars # <<>> /\ run.sep # <<>> /\ CreatedPart(run) = Head0(run), <<"C14", "separation">>)
    IN IF bad # {} \/ ~SameStrings(toks, run.b) THEN bad
       ELSE LET before == CreatedToks(cr.vars) \o (IF Len(Head0(run)) > Len(CreatedPart(run)) THEN SepToks(run) ELSE <<>>)
                want == before \o Subst(toks, run.b, LAMBDA i : IF body[i] = run.b[i] THEN << <<"Str", Txt(run.b[i])>> >> ELSE << <<"Id", Txt(body[i])>> >>)
                w == Printed(want, run.out, IF before = <<PunctTok(";")>> THEN 0 ELSE Len(before))
            IN Bad(w.why # "", <<"C14", "printed", w.why, w.i>>)

Reserved == {"var", "let", "in", "if", "do", "new", "for", "try", "this", "case", "else", "void", "with", "null", "true"}
IsName(s) == /\ s # "" /\ \A i \in 1 .. Len(s) : IsWordChar(Ch(s, i)) /\ Ch(s, i) \notin {"\\", "\r", "\f"}
             /\ First(s) \notin Digits /\ s \notin Reserved
Words(toks, b) == {toks[i][2] : i \in {j \in 1 .. Len(toks) : ~IsQuoted(toks[j])}} \cup {Txt(b[i]) : i \in {j \in 1 .. Len(b) : Kind(b[j]) = "Other"}}

C15Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C15", run.st>>}
    ELSE IF Len(run.a) < Len(run.b) THEN {}
    ELSE
    LET cr == Created(CreatedPart(run))
        body == Body(run)
        decls == Declarations(run.b)
        names == {cr.vars[k][1] : k \in 1 .. Len(cr.vars)}
        toName == {i \in 1 .. Len(run.b) : body[i] # run.b[i] /\ Kind(body[i]) = "Other"}
        Earlier(i) == \E d \in decls : run.b[d.name] = body[i] /\ Txt(run.b[d.value]) = Txt(run.b[i]) /\ d.value < i
        declVals == {d.value : d \in {e \in decls : e.first /\ StartsWith(Txt(run.b[e.name]), "r_")}}
    IN Bad(\E n \in names : ~IsName(n), <<"C15", "not a name">>)
       \cup Bad(Cardinality(names) # Len(cr.vars), <<"C15", "declared twice">>)
       \cup Bad(names \cap Words(toks, run.b) # {}, <<"C15", "taken">>)
       \cup Bad(\E i \in toName : ~Earlier(i), <<"C15", "not declared before">>)
       \cup Bad(\E i \in declVals : StrTok(run.b[i]) /\ body[i] # run.b[i] /\ Kind(body[i]) # "Other", <<"C15", "declaration">>)

(***************************************************************************)
(* Aggregation into the array R.                                           *)
(***************************************************************************)
(* The value of a literal as far as the quotes matter: what is between them, where an escaped quote is the quote. *)
RECURSIVE Unescape(_, _)
Unescape(s, i) == IF i > Len(s) THEN <<>>
                  ELSE IF Ch(s, i) = "\\" /\ i < Len(s)
                       THEN (IF Ch(s, i + 1) \in {"'", "\""} THEN <<Ch(s, i + 1)>> ELSE <<"\\" \o Ch(s, i + 1)>>) \o Unescape(s, i + 2)
                  ELSE <<Ch(s, i)>> \o Unescape(s, i + 1)
StrValue(lit) == Unescape(SubSeq(lit, 2, Len(lit) - 1), 1)
(* One literal, which its last character ends. *)
RECURSIVE EndsAt(_, _)
EndsAt(s, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = "\\" THEN EndsAt(s, i + 2) ELSE IF Ch(s, i) = First(s) THEN i ELSE EndsAt(s, i + 1)
IsLit(s) == Len(s) >= 2 /\ First(s) \in {"'", "\""} /\ EndsAt(s, 2) = Len(s)

(* The array of the source: [open, close: positions of its brackets] (0: there is none). *)
ArrayOf(b) ==
    LET S == SigPos(b)
        at == {s \in 2 .. Len(S) - 2 : VarLet(b[S[s - 1]]) /\ b[S[s]] = <<"Other", "R">> /\ b[S[s + 1]] = <<"Operation", "=">> /\ b[S[s + 2]] = <<"Char", "[">>}
        s == CHOOSE x \in at : TRUE
        ends == {e \in S[s + 2] + 1 .. Len(b) : b[e] = <<"Char", "]">>}
    IN IF at = {} \/ ends = {} THEN [open |-> 0, close |-> 0]
       ELSE [open |-> S[s + 2], close |-> CHOOSE e \in ends : \A f \in ends : e <= f]

(* The entries between two positions, as sequences of tokens. *)
Entries(ts) ==
    LET sig == SelectSeq(ts, LAMBDA t : ~Blank(t) /\ Kind(t) # "License")
        st == FoldLeft(LAMBDA acc, t : IF t = <<"Char", ",">> THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                       ELSE [acc EXCEPT !.cur = Append(@, t)], [done |-> <<>>, cur |-> <<>>], sig)
    IN IF st.cur = <<>> THEN st.done ELSE Append(st.done, st.cur)
Plain(e) == \A i \in 1 .. Len(e) : Kind(e[i]) # "Char"
IndexRef(n) == "R[" \o ToString(n) \o "]"
(* The index written in R[i]; -1 when it is not that. *)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RefIndex(s) ==
    LET mid == SubSeq(s, 3, Len(s) - 1)
    IN IF Len(s) < 4 \/ ~StartsWith(s, "R[") \/ LastCh(s) # "]" \/ \E i \in 1 .. Len(mid) : Ch(mid, i) \notin Digits THEN -1
       ELSE IF Len(mid) > 1 /\ First(mid) = "0" THEN -1
       ELSE FoldLeft(LAMBDA acc, i : acc * 10 + DigitVal(Ch(mid, i)), 0, [i \in 1 .. Len(mid) |-> i])

C16Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C16", run.st>>}
    ELSE IF Len(run.a) < Len(run.b) THEN {<<"C16", "tokens are missing">>}
    ELSE
    LET arr == ArrayOf(run.b)
        n == Len(run.b)
        extra == Len(run.a) - n
        had == arr.open > 0
        old == IF had THEN Entries(SubSeq(run.b, arr.open + 1, arr.close - 1)) ELSE <<>>
        uncountable == had /\ \E k \in 1 .. Len(old) : ~Plain(old[k])
        \* where the new tokens stand: before everything, or before the closing bracket
        shift == IF had THEN arr.close - 1 ELSE 0
        A(i) == IF i <= shift THEN run.a[i] ELSE run.a[i + extra]
        new == SubSeq(run.a, shift + 1, shift + extra)
        entries == IF had THEN Entries(SubSeq(run.a, arr.open + 1, arr.close - 1 + extra))
                   ELSE IF Len(new) >= 2 THEN LET e == {i \in 3 .. Len(new) : new[i] = <<"Char", "]">>}
                                              IN IF e = {} THEN <<>> ELSE Entries(SubSeq(new, 3, (CHOOSE x \in e : \A y \in e : x <= y) - 1))
                   ELSE <<>>
        EntryLit(k) == IF Len(entries[k]) = 1 /\ Kind(entries[k][1]) \in {"String", "CreatedVar"} /\ IsLit(Txt(entries[k][1])) THEN <<Txt(entries[k][1])>> ELSE <<>>
        Ref(i) == /\ Kind(A(i)) = "CreatedVar" /\ RefIndex(Txt(A(i))) + 1 \in 1 .. Len(entries)
                  /\ LET e == EntryLit(RefIndex(Txt(A(i))) + 1) IN e # <<>> /\ StrValue(e[1]) = StrValue(Txt(run.b[i]))
        changed == {i \in 1 .. n : A(i) # run.b[i]}
        wrong == {i \in changed : ~(StrTok(run.b[i]) /\ Ref(i))}
        rejected == {i \in changed : i \in {run.rej[k] : k \in 1 .. Len(run.rej)}}
        early == {i \in changed : had /\ i <= arr.close}
        nNew == Len(entries) - Len(old)
        added == [k \in 1 .. (IF nNew > 0 THEN nNew ELSE 0) |-> entries[Len(old) + k]]
        newOk == IF had
                 THEN \A i \in 1 .. Len(new) : \/ new[i] = <<"Char", ",">>
                                               \/ Kind(new[i]) = "CreatedVar" /\ IsLit(Txt(new[i]))
                 ELSE extra = 0 \/ new = run.sep
                      \/ /\ Len(new) >= 5 + Len(run.sep)
                         /\ new[1] = <<"CreatedVarDecl", "var R=">> /\ new[2] = <<"Char", "[">>
                         /\ \A i \in 3 .. Len(new) - 2 - Len(run.sep) : IF i % 2 = 1 THEN Kind(new[i]) = "CreatedVar" /\ IsLit(Txt(new[i])) ELSE new[i] = <<"Char", ",">>
                         /\ new[Len(new) - 1 - Len(run.sep)] = <<"Char", "]">> /\ new[Len(new) - Len(run.sep)] = <<"Char", ";">>
                         /\ SubSeq(new, Len(new) - Len(run.sep) + 1, Len(new)) = run.sep
        bad == Bad(uncountable /\ run.a # run.b, <<"C16", "uncountable">>)
               \cup Bad(~newOk \/ nNew < 0, <<"C16", "array">>)
               \cup Bad(wrong # {}, <<"C16", "token", IF wrong = {} THEN 0 ELSE CHOOSE i \in wrong : \A j \in wrong : i <= j>>)
               \cup Bad(rejected # {}, <<"C16", "filter">>)
               \cup Bad(early # {}, <<"C16", "before the declaration">>)
               \cup Bad(\E k \in 1 .. Len(added) : Len(added[k]) # 1, <<"C16", "entry">>)
               \cup Bad(nNew > 0 /\ Cardinality({added[k] : k \in 1 .. Len(added)}) # nNew, <<"C16", "entry twice">>)
               \cup Bad(had /\ ~uncountable /\ nNew >= 0 /\ \E k \in 1 .. Len(old) : entries[k] # old[k], <<"C16", "index">>)
    IN IF bad # {} \/ ~SameStrings(toks, run.b) THEN bad
       ELSE LET ArrToks(seq) == FlattenSeq([k \in 1 .. Len(seq) |-> IF seq[k] = <<"Char", ",">> THEN <<PunctTok(",")>> ELSE << <<"Str", Txt(seq[k])>> >>])
                RefToks(s) == << <<"Id", "R">>, PunctTok("["), <<"Num", SubSeq(s, 3, Len(s) - 1)>>, PunctTok("]") >>
                StrOut(i) == IF A(i) = run.b[i] THEN << <<"Str", Txt(run.b[i])>> >> ELSE RefToks(Txt(A(i)))
                body == Subst(toks, run.b, StrOut)
                \* the closing bracket of the array among the lexemes
                sg == SelectSeq([k \in 1 .. Len(body) |-> k], LAMBDA k : body[k][1] # "Lic")
                opens == {k \in 1 .. Len(sg) - 3 : body[sg[k]][2] \in {"var", "let"} /\ body[sg[k + 1]][2] = "R" /\ body[sg[k + 2]][2] = "=" /\ body[sg[k + 3]][2] = "["}
                o == sg[(CHOOSE k \in opens : TRUE) + 3]
                cl == {k \in o + 1 .. Len(body) : body[k][2] = "]"}
                c == CHOOSE k \in cl : \A j \in cl : k <= j
                k0 == Len(new) - Len(run.sep)
                made == IF had \/ extra = 0 \/ new = run.sep THEN <<>>
                        ELSE <<PunctTok("var"), <<"Id", "R">>, PunctTok("="), PunctTok("[")>> \o ArrToks(SubSeq(new, 3, k0 - 2)) \o <<PunctTok("]"), PunctTok(";")>>
                before == made \o (IF had \/ extra = 0 THEN <<>> ELSE SepToks(run))
                want == IF ~had THEN before \o body
                        ELSE IF extra = 0 THEN body
                        ELSE SubSeq(body, 1, c - 1) \o ArrToks(new) \o SubSeq(body, c, Len(body))
                w == Printed(want, run.out, IF before = <<PunctTok(";")>> THEN 0 ELSE Len(before))
            IN Bad(w.why # "", <<"C16", "printed", w.why, w.i>>)

(***************************************************************************)
(* Cleaning.                                                               *)
(***************************************************************************)
Space == <<"Char", " ">>
(* Tokens written next to each other: as lexemes. *)
AsLex(t) == <<IF Kind(t) = "License" THEN "Lic" ELSE Kind(t), Txt(t)>>
MayBeApart(x, y) == \/ NeedSep(AsLex(x), AsLex(y))
                    \/ Txt(y) = "\\"
                    \/ Txt(y) = "." /\ \A i \in 1 .. Len(Txt(x)) : Ch(Txt(x), i) \in Digits \cup {"_"}
RECURSIVE LeadSemis(_, _)
LeadSemis(s, i) == IF i <= Len(s) /\ Semi(s[i]) THEN LeadSemis(s, i + 1) ELSE i - 1

C17Clean(run) ==
    LET want == SelectSeq(run.b, LAMBDA t : ~Blank(t))
        a == run.a
        got == SelectSeq(a, LAMBDA t : t # Space)
        k == Len(want) - Len(got)
    IN Bad(~(k >= 0 /\ k <= LeadSemis(want, 1) /\ got = SubSeq(want, k + 1, Len(want))), <<"C17", "clean_tokens">>)
       \cup Bad(\E i \in 1 .. Len(a) : a[i] = Space /\ ~(i > 1 /\ i < Len(a) /\ a[i + 1] # Space /\ MayBeApart(a[i - 1], a[i + 1])), <<"C17", "space">>)

(* Walks the tokens that have to stay (s: <<token, may go>>) and those that did (a). *)
C17Filter(run, f) ==
    LET b == run.b
        stay == SelectSeq([i \in 1 .. Len(b) |-> i], LAMBDA i : ~(Blank(b[i]) /\ f.go[i]))
        spaceStays == \E i \in 1 .. Len(b) : b[i] = Space /\ ~f.go[i]
        \* spaces that were not there
        a == IF spaceStays THEN f.a ELSE SelectSeq(f.a, LAMBDA t : t # Space)
        n == Len(stay)
        lead == LET RECURSIVE L(_)
                    L(k) == IF k <= n /\ Semi(b[stay[k]]) THEN L(k + 1) ELSE k - 1
                IN L(1)
        MayGo(k) == Semi(b[stay[k]]) /\ f.go[stay[k]] /\ (k <= lead \/ k = n \/ Closing(b[stay[k + 1]]))
        p == FoldLeft(LAMBDA q, k : IF q = 0 THEN 0
                                    ELSE IF q <= Len(a) /\ a[q] = b[stay[k]] THEN q + 1
                                    ELSE IF 1 < q /\ q < Len(a) /\ a[q] = Space /\ a[q + 1] = b[stay[k]] /\ MayBeApart(a[q - 1], a[q + 1]) THEN q + 2
                                    ELSE IF MayGo(k) THEN q
                                    ELSE 0, 1, [k \in 1 .. n |-> k])
    IN Bad(p # Len(a) + 1, <<"C17", "clean_tokens_except", f.name>>)
       \cup Bad(~spaceStays /\ \E i \in 1 .. Len(f.a) : f.a[i] = Space /\ ~(i > 1 /\ i < Len(f.a) /\ f.a[i + 1] # Space /\ MayBeApart(f.a[i - 1], f.a[i + 1])), <<"C17", "space", f.name>>)

C17Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C17", run.st>>}
    ELSE C17Clean(run) \cup UNION {C17Filter(run, run.filters[i]) : i \in 1 .. Len(run.filters)}

(***************************************************************************)
(* Replacement and look-up.                                                *)
(***************************************************************************)
RECURSIVE NextSig(_, _)
NextSig(b, i) == IF i <= Len(b) /\ Blank(b[i]) THEN NextSig(b, i + 1) ELSE i
InitKinds == {"String", "Other", "Regex", "Number", "FloatingNumber"}
(* <<answer>>, or <<>> when nothing is said. *)
LookUp(b, pos) ==
    LET q == NextSig(b, pos + 1)
        e == NextSig(b, q + 1)
        v == NextSig(b, e + 1)
    IN IF q > Len(b) \/ Kind(b[q]) # "Other" \/ e > Len(b) THEN <<>>
       ELSE IF b[e] \in {<<"Char", ",">>, <<"Char", ";">>} THEN << <<q>> >>
       ELSE IF b[e] = <<"Operation", "=">> /\ v <= Len(b) /\ Kind(b[v]) \in InitKinds THEN << <<q, v>> >>
       ELSE <<>>

C18Run(rec, toks, run) ==
    IF run.st # "ok" THEN {<<"C18", run.st>>}
    ELSE LET want(f) == [i \in 1 .. Len(run.b) |-> IF f.cb[i] = <<>> THEN run.b[i] ELSE f.cb[i][1]]
         IN UNION {Bad(run.reps[k].a # want(run.reps[k]), <<"C18", "replace_tokens_with", run.reps[k].name>>)
                   \cup Bad(run.reps[k].each # want(run.reps[k]), <<"C18", "replace_token_with", run.reps[k].name>>) : k \in 1 .. Len(run.reps)}
            \cup UNION {LET w == LookUp(run.b, run.found[k][1])
                        IN Bad(w # <<>> /\ w[1] # run.found[k][2], <<"C18", "look-up", run.found[k][1]>>) : k \in 1 .. Len(run.found)}
=============================================================================
