---------------------------- MODULE JsNamesTrace ----------------------------
(***************************************************************************)
(* Checks recorded programs that need many names: the names are a run of   *)
(* the supply (its state: the names in use), the program means the same.   *)
(***************************************************************************)
EXTENDS JsTokens, Json, IOUtils, CSV

VARIABLE l
Trace == ndJsonDeserialize(IOEnv.VF_IN)

(* Give(inUse, name): the next state of the supply; a name that is not fresh is not given. *)
Fresh(inUse, name) == IsName(name) /\ name \notin inUse
Given(taken, names) ==
    FoldLeft(LAMBDA st, name : IF st.ok /\ Fresh(st.inUse, name) THEN [ok |-> TRUE, inUse |-> st.inUse \cup {name}, k |-> st.k + 1]
                               ELSE [st EXCEPT !.ok = FALSE],
             [ok |-> TRUE, inUse |-> taken, k |-> 0], names)

Verdict(rec) ==
    IF "crash" \in DOMAIN rec THEN {<<"C15", rec.crash>>}
    ELSE IF rec.st # "ok" THEN {<<"C15", rec.st>>}
    ELSE LET taken == {rec.taken[i] : i \in 1 .. Len(rec.taken)} \cup {"x", "var", "let", "function"}
             g == Given(taken, [i \in 1 .. Len(rec.names) |-> rec.names[i][1]])
             \* the literals by their names
             lits == {rec.names[i][2] : i \in 1 .. Len(rec.names)}
             Of == [name \in {rec.names[i][1] : i \in 1 .. Len(rec.names)} |-> (CHOOSE i \in 1 .. Len(rec.names) : rec.names[i][1] = name)]
         IN Bad(~g.ok, <<"C15", "not fresh", g.k + 1>>)
            \cup (IF ~g.ok THEN {} ELSE
                  Bad(Cardinality(lits) # Len(rec.names), <<"C15", "declared twice">>)
                  \* the k-th statement: two words, <<literal of the source, what stands there now>>
                  \cup LET refs == {k \in 1 .. Len(rec.refs) : \E w \in {2, 3} : rec.refs[k][w] # rec.refs[k][1] /\ ~(rec.refs[k][w] \in DOMAIN Of /\ rec.names[Of[rec.refs[k][w]]][2] = rec.refs[k][1])}
                       IN Bad(refs # {}, <<"C15", "reference", IF refs = {} THEN 0 ELSE CHOOSE k \in refs : TRUE>>))

Init == l = 0
Next == /\ l < Len(Trace)
        /\ LET v == Verdict(Trace[l + 1])
           IN IF v = {} THEN TRUE
              ELSE CSVWrite("%1$s", <<ToJson([rec |-> l + 1, bad |-> v])>>, IOEnv.VF_BAD)
        /\ l' = l + 1

AllChecked == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
