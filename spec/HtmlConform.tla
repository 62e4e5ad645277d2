----------------------------- MODULE HtmlConform ----------------------------
(***************************************************************************)
(* The relation between a document (its pieces and the layout around them) *)
(* and what minifying it may give.                                         *)
(***************************************************************************)
EXTENDS Contract, TLC

(* The optional tags. *)
Optional == {"</area>", "</base>", "<body>", "</body>", "</br>", "</col>", "</colgroup>", "</dd>", "</dt>", "<head>", "</head>", "</hr>", "<html>", "</html>",
             "</img>", "</input>", "</li>", "</link>", "</meta>", "</option>", "</param>", "<tbody>", "</tbody>", "</td>", "</tfoot>", "</th>", "</thead>", "</tr>",
             "</basefont>", "</isindex>"}

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}

(* A piece starts a tag with attributes. *)
Starts(x) == Len(x) > 1 /\ SubSeq(x, 1, 1) = "<" /\ SubSeq(x, 2, 2) \notin {"!", "/"} /\ SubSeq(x, Len(x), Len(x)) # ">"
TagEnds(x) == x \in {">", "/>"}

(* --- solids: what has to be in the result; a tag with its attributes is one --- *)
(* [from, to: pieces; before: the whitespace in front (comments and optional tags taken out)] *)
WsOf(atoms, gap) == FoldLeft(LAMBDA s, a : IF atoms[a + 1].k = "ws" THEN s \o atoms[a + 1].s ELSE s, "", gap)
RECURSIVE TagEnd(_, _)
TagEnd(t, i) == IF TagEnds(t[i]) THEN i ELSE TagEnd(t, i + 1)
RECURSIVE SolidsFrom(_, _, _, _, _)
SolidsFrom(atoms, t, l, i, ws) ==
    IF i > Len(t) THEN << [from |-> i, to |-> i, before |-> ws \o WsOf(atoms, l[i])] >>
    ELSE LET w == ws \o WsOf(atoms, l[i])
             e == IF Starts(t[i]) THEN TagEnd(t, i) ELSE i
         IN IF t[i] \in Optional \/ (Starts(t[i]) /\ e = i + 1 /\ l[i + 1] = <<>> /\ (t[i] \o t[e]) \in Optional)
            THEN SolidsFrom(atoms, t, l, e + 1, w)
            ELSE << [from |-> i, to |-> e, before |-> w] >> \o SolidsFrom(atoms, t, l, e + 1, "")
Solids(atoms, rec, run) == SolidsFrom(atoms, rec.t, run.l, 1, "")

RECURSIVE FindChar(_, _, _)
FindChar(s, p, cs) == IF p > Len(s) THEN 0 ELSE IF SubSeq(s, p, p) \in cs THEN p ELSE FindChar(s, p + 1, cs)

(* The end of solid x when it is at p in the result (0: it is not). *)
MatchSolid(t, x, o, p) ==
    IF x.from = x.to
    THEN IF IsPrefixAt(o, p, t[x.from]) THEN p + Len(t[x.from]) ELSE 0
    ELSE LET n == p + Len(t[x.from])
         IN IF IsPrefixAt(o, p, t[x.from]) /\ n <= Len(o) /\ SubSeq(o, n, n) \in CWs \cup {">", "/"} /\ FindChar(o, n, {">"}) # 0
            THEN FindChar(o, n, {">"}) + 1 ELSE 0

(* ok(k, sep): the separation before the k-th solid is right. *)
HtmlWalk(t, xs, o, Ok(_, _)) ==
    LET n == Len(xs)
        Step(st, k) ==
            IF st.why # "" THEN st
            ELSE LET q == SkipWs(o, st.p)
                     sep == Between(o, st.p, q)
                 IN IF ~Ok(k, sep) THEN [st EXCEPT !.i = k, !.why = "separation"]
                    ELSE IF k = n THEN (IF q <= Len(o) THEN [st EXCEPT !.i = k, !.why = "more"] ELSE [st EXCEPT !.i = k])
                    ELSE LET e == MatchSolid(t, xs[k], o, q)
                         IN IF e = 0 THEN [st EXCEPT !.i = k, !.why = "piece"] ELSE [st EXCEPT !.i = k, !.p = e]
    IN FoldLeft(Step, [i |-> 0, p |-> 1, why |-> ""], [k \in 1 .. n |-> k])

HasPre(t) == \E i \in 1 .. Len(t) : t[i] \in {"<pre", "<textarea", "<PRE", "<TextArea", "<Pre"}

(* C22: the solids in order; separated by one whitespace character where they were separated. *)
C22Run(atoms, rec, run) ==
    IF HasPre(rec.t) THEN {}
    ELSE IF run.st # "ok" THEN {<<"C22", run.st>>}
    ELSE LET xs == Solids(atoms, rec, run)
             w == HtmlWalk(rec.t, xs, run.out,
                    LAMBDA k, sep : IF k = 1 \/ k = Len(xs) THEN sep = ""
                                    ELSE IF xs[k].before = "" THEN sep = "" ELSE Len(sep) = 1)
         IN Bad(w.why # "", <<"C22", w.why, w.i>>)

(* C23: with preformatted text, the text outside tags is kept to the character. *)
C23Run(atoms, rec, run) ==
    IF ~HasPre(rec.t) THEN {}
    ELSE IF run.st # "ok" THEN {<<"C23", run.st>>}
    ELSE LET xs == Solids(atoms, rec, run)
             w == HtmlWalk(rec.t, xs, run.out, LAMBDA k, sep : sep = (IF k = 1 \/ k = Len(xs) THEN "" ELSE xs[k].before))
         IN Bad(w.why # "", <<"C23", w.why, w.i>>)

(* --- C24: attributes --- *)
(* Reading the attributes of a tag in the result, as HTML does: from p (after the name) to e (its >). *)
A(n, q, v, after) == [n |-> n, q |-> q, v |-> v, after |-> after]
NameEnd(s, p) == FindChar(s, p, CWs \cup {"=", ">", "/"})
Ch(s, p) == SubSeq(s, p, p)
RECURSIVE ReadAttrs(_, _, _)
ReadAttrs(s, p, apart) ==
    (* apart: whitespace was seen since the last attribute *)
    IF p > Len(s) THEN << A("<eof>", "", "", "") >>
    ELSE IF Ch(s, p) \in CWs THEN ReadAttrs(s, p + 1, TRUE)
    ELSE IF Ch(s, p) = ">" THEN <<>>
    ELSE IF Ch(s, p) = "/" THEN << A("/", "", "", "") >> \o ReadAttrs(s, p + 1, TRUE)
    ELSE IF ~apart THEN << A("<touching>", "", "", "") >>
    ELSE LET ne == IF Ch(s, p) = "=" THEN p + 1 ELSE NameEnd(s, p)
             name == Between(s, p, ne)
             q == SkipWs(s, ne)
         IN IF ne = 0 THEN << A("<eof>", "", "", "") >>
            ELSE IF q <= Len(s) /\ Ch(s, q) = "="
            THEN LET v == SkipWs(s, q + 1) IN
                 IF v > Len(s) THEN << A("<eof>", "", "", "") >>
                 ELSE IF Ch(s, v) \in {"\"", "'"}
                 THEN LET e == FindChar(s, v + 1, {Ch(s, v)})
                      IN IF e = 0 THEN << A("<open>", "", "", "") >>
                         ELSE << A(name, Ch(s, v), Between(s, v + 1, e), "") >> \o ReadAttrs(s, e + 1, FALSE)
                 ELSE LET e == FindChar(s, v, CWs \cup {">"})
                      IN << A(name, "no", Between(s, v, e), Ch(s, e)) >> \o ReadAttrs(s, e, FALSE)
            ELSE << A(name, "", "", "") >> \o ReadAttrs(s, ne, FALSE)

(* Runs of whitespace as one space. *)
RECURSIVE Norm(_, _)
Norm(s, p) == IF p > Len(s) THEN ""
              ELSE IF Ch(s, p) \in CWs THEN " " \o Norm(s, SkipWs(s, p)) ELSE Ch(s, p) \o Norm(s, p + 1)

(* The attributes of the source, from the pieces between the start and the end of a tag. *)
RECURSIVE Given(_, _, _)
Given(t, i, e) ==
    IF i >= e THEN (IF t[e] = "/>" THEN << A("/", "", "", "") >> ELSE <<>>)
    ELSE IF i + 2 < e + 1 /\ t[i + 1] = "="
    THEN LET v == t[i + 2] IN
         << IF Ch(v, 1) \in {"\"", "'"} THEN A(t[i], Ch(v, 1), SubSeq(v, 2, Len(v) - 1), "") ELSE A(t[i], "no", v, "") >> \o Given(t, i + 3, e)
    ELSE << A(t[i], "", "", "") >> \o Given(t, i + 1, e)

LastPart(n) == LET cut == {i \in 1 .. Len(n) : SubSeq(n, i, i) \notin Letters} IN
               IF cut = {} THEN n ELSE SubSeq(n, 1 + CHOOSE i \in cut : \A j \in cut : j <= i, Len(n))
Plain(v) == v # "" /\ \A i \in 1 .. Len(v) : SubSeq(v, i, i) \in Letters \cup Digits \cup {"-", "_", "."}
MayLoseQuotes(n, v) == LastPart(n) \in {"width", "height"} /\ Plain(v)
Droppable(tag, a) == a.n = "type" /\ \/ tag = "<script" /\ a.v = "text/javascript"
                                     \/ tag = "<style" /\ a.v = "text/css"
SameAttr(a, b) ==
    /\ a.n = b.n
    /\ Norm(a.v, 1) = Norm(b.v, 1)
    /\ (a.q = "" <=> b.q = "")
    /\ (b.q = "no" /\ a.q # "no" => MayLoseQuotes(a.n, a.v) /\ b.after \in CWs \cup {">"})
RECURSIVE SameAttrs(_, _, _, _, _)
SameAttrs(tag, as, i, bs, j) ==
    IF i > Len(as) THEN j > Len(bs)
    ELSE \/ j <= Len(bs) /\ SameAttr(as[i], bs[j]) /\ SameAttrs(tag, as, i + 1, bs, j + 1)
         \/ Droppable(tag, as[i]) /\ SameAttrs(tag, as, i + 1, bs, j)

(* The tags of the result with attributes: text has no <. *)
RECURSIVE TagsAt(_, _)
TagsAt(s, p) == LET q == FindChar(s, p, {"<"}) IN
    IF q = 0 \/ q = Len(s) THEN <<>>
    ELSE IF SubSeq(s, q + 1, q + 1) \in {"!", "/"} THEN TagsAt(s, q + 1) ELSE <<q>> \o TagsAt(s, q + 1)
CountLt(x) == Cardinality({i \in 1 .. Len(x) : SubSeq(x, i, i) = "<" /\ i < Len(x) /\ SubSeq(x, i + 1, i + 1) \notin {"!", "/"}})
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
C24Run(atoms, rec, run) ==
    IF run.st # "ok" THEN {}
    ELSE LET xs == Solids(atoms, rec, run)
             t == rec.t
             (* a whole conditional comment may hold tags of its own *)
             want == Flat([k \in 1 .. Len(xs) - 1 |-> IF xs[k].from # xs[k].to THEN << xs[k] >> ELSE [j \in 1 .. CountLt(t[xs[k].from]) |-> [from |-> 0]]])
             got == TagsAt(run.out, 1)
         IN IF Len(want) # Len(got) THEN {}
            ELSE LET wrong(k) == /\ want[k].from # 0
                                 /\ IsPrefixAt(run.out, got[k], t[want[k].from])
                                 /\ ~SameAttrs(t[want[k].from], Given(t, want[k].from + 1, want[k].to), 1,
                                               ReadAttrs(run.out, got[k] + Len(t[want[k].from]), FALSE), 1)
                 IN {<<"C24", "attributes", k>> : k \in {j \in 1 .. Len(want) : wrong(j)}}
=============================================================================
