------------------------------ MODULE JsNames ------------------------------
(***************************************************************************)
(* A supply of names.  Programs that need n of them while some are taken:  *)
(* n strings, each written twice, and a use of every taken name.  Names    *)
(* given out one after the other have to be fresh, however many there are. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, CSV, IOUtils

Letters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
             "0","1","2","3","4","5","6","7","8","9">>
All == 1 .. Len(Letters)
R(s) == "r_" \o s

(* The taken names. *)
Taken(k) ==
    CASE k = "none" -> {}
      [] k = "first" -> {R("aa")}
      [] k = "row" -> {R(Letters[i] \o "a") : i \in All}
      [] k = "column" -> {R("a" \o Letters[i]) : i \in All}
      [] k = "corner" -> {R(Letters[i] \o Letters[j]) : i \in {1, 26, 27, 52, 53, 62}, j \in {1, 2, 26, 27, 52, 53, 61, 62}}
      [] k = "even" -> {R(Letters[i] \o Letters[j]) : i \in {x \in All : x % 2 = 0}, j \in All}
      [] k = "allTwo" -> {R(Letters[i] \o Letters[j]) : i \in All, j \in All}
      [] k = "allTwoSomeThree" -> {R(Letters[i] \o Letters[j]) : i \in All, j \in All} \cup {R(Letters[i] \o "a" \o Letters[j]) : i \in {1, 2, 5, 62}, j \in {1, 2}}
      [] k = "short" -> {R(Letters[i]) : i \in All} \cup {"r_", "r", "R_aa"}
      [] k = "three" -> {R(Letters[i] \o "aa") : i \in All} \cup {R("aa" \o Letters[i]) : i \in All}
Kinds == {"none", "first", "row", "column", "corner", "even", "allTwo", "allTwoSomeThree", "short", "three"}
Uses == {"call", "var", "let", "property", "label", "argument", "function", "later"}

(* How many names: around 62 and 62 * 62, where a letter is added or wraps. *)
Counts(k) == IF IOEnv.VF_N = "few" THEN (CASE k \in {"even"} -> {3, 62} [] OTHER -> {1, 2, 61, 62, 63, 130})
             ELSE {3843, 3844, 3845, 3910}

VARIABLE done
Init == done = {}
Emit == \E k \in Kinds, u \in Uses, q \in {"'", "\""} :
           \E n \in Counts(k) :
              /\ (IOEnv.VF_N = "many" => <<u, q>> \in {<<"call", "'">>, <<"later", "\"">>} /\ k \in {"none", "first", "row", "corner", "three"})
              /\ <<k, u, n, q>> \notin done
              /\ done = {}
              /\ CSVWrite("%1$s", <<ToJson([n |-> n, taken |-> SetToSeq(Taken(k)), use |-> u, q |-> q])>>, IOEnv.VF_OUT)
              /\ done' = {<<k, u, n, q>>}
Next == Emit
=============================================================================
