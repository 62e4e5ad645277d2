----------------------------- MODULE CssGrammar -----------------------------
(***************************************************************************)
(* Style sheets as the derivations of a push-down machine (Grammar).       *)
(*                                                                         *)
(* The gap before a component is "opt" (whitespace or comments may stand   *)
(* there) unless the grammar says otherwise:                               *)
(*   %g  parts of one compound: comments at most, and nothing is printed   *)
(*   %n  nothing                                                           *)
(*   %w  whitespace is needed (descendant combinator, + and - in calc)     *)
(*   %s  the components are apart (by whitespace or a comment)             *)
(*   %z  optional whitespace, and no comment (in the parentheses of a URL) *)
(*   %o  optional whitespace of which no particular form is promised       *)
(* %S and %D start a region: selectors, or declarations and at-rules.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES todo, toks, flags, flag, fuel

LexData == JsonDeserialize("lex/css.json")
StartSym == IOEnv.VF_START
LicRate == atoi(IOEnv.VF_LIC)
Exh == IOEnv.VF_MODE = "bfs"
Strict == IOEnv.VF_STRICT = "1"       \* only the layouts which must give the same text

P == [
  Sheet |-> << <<"Rule">>, <<"Rule", "Sheet">>, <<"Rule", "Rule", "Sheet">>, <<"AtStm", "Sheet">>, <<"Group", "Sheet">>, <<"Group">>,
               <<"AtBlk", "Sheet">>, <<"Rule", "Group", "Rule">> >>,
  Rules |-> << <<"Rule">>, <<>>, <<"Rule", "Rules">>, <<"Rule", "Rule">>, <<"Group">>, <<"AtBlk">> >>,
  Rule |-> << <<"%S", "Sels", "{", "}">>, <<"%S", "Sels", "{", "RDecls", "}">>, <<"%S", "Sels", "{", "Decls", "}">>, <<"%S", "Sels", "{", "RDecls", "}">> >>,
  \* ---- rules in rules
  RDecls |-> << <<"Nest">>, <<"Nest", "Decls">>, <<"Decl", ";", "Nest">>, <<"Decl", ";", "Nest", "RDecls">>, <<"Decls">>, <<"Decls">>, <<"Decls">>, <<"Nest", "RDecls">> >>,
  Nest |-> << <<"%S", "NSels", "{", "Decls", "}">>, <<"%S", "NSels", "{", "RDecls", "}">>, <<"%S", "NSels", "{", "}">>, <<"%D", "@media", "Queries", "{", "RDecls", "}">>,
              <<"%D", "@supports", "%s", "Cond", "{", "RDecls", "}">>, <<"%D", "@layer", "%s", "Layer", "{", "RDecls", "}">>, <<"%D", "@container", "%s", "MFeat", "{", "Decls", "}">> >>,
  NSels |-> << <<"NSel">>, <<"NSel">>, <<"NSel", ",", "NSels">> >>,
  NSel |-> << <<"Amp">>, <<"Amp", "Parts">>, <<"Amp", "CombSel">>, <<"Amp", "Parts", "CombSel">>, <<">", "Sel">>, <<"+", "Sel">>, <<"~", "Sel">>, <<"Comp", "%w", "Amp">>, <<"Comp", ">", "Amp", "Parts">>,
              <<"Sel">>, <<"PNot", "%o", "Amp", "%o", ")">>, <<"Amp", "%w", "Amp">>, <<"Amp", "+", "Amp">> >>,
  \* ---- selectors
  Sels |-> << <<"Sel">>, <<"Sel">>, <<"Sel", ",", "Sels">>, <<"Sel", ",", "Sel">> >>,
  Sel |-> << <<"Comp">>, <<"Comp">>, <<"Comp", "CombSel">>, <<"Comp", "CombSel">>, <<"Comp", "CombSel">> >>,
  CombSel |-> << <<">", "Sel">>, <<"%w", "Sel">>, <<"%w", "Sel">>, <<"%w", "Sel">>, <<"+", "Sel">>, <<"~", "Sel">> >>,
  Comp |-> << <<"Tag">>, <<"Cls">>, <<"Id">>, <<"Star">>, <<"Tag", "Parts">>, <<"Cls", "Parts">>, <<"Star", "Parts">>, <<"Attr">>, <<"Psd">>,
              <<"PFun">>, <<"Tag", "PFunP">>, <<"Tag", "AttrP">>, <<"Attr", "Parts">>, <<"Psd", "Parts">>, <<"Tag", "%g", "Psd">>, <<"Id", "Parts">>, <<"PFun", "Parts">>, <<"Ns">>, <<"Ns", "Parts">> >>,
  Parts |-> << <<"%g", "Cls">>, <<"%g", "Id">>, <<"%g", "Psd">>, <<"AttrP">>, <<"PFunP">>, <<"%g", "Cls", "Parts">>, <<"AttrP", "Parts">>, <<"%g", "Psd", "Parts">>, <<"%g", "PEl">> >>,
  Attr |-> << <<"[", "%o", "AName", "%o", "]">>, <<"[", "%o", "AName", "%o", "AOp", "%o", "Str", "%o", "]">>, <<"[", "%o", "AName", "%o", "AOp", "%o", "AVal", "%o", "]">>,
              <<"[", "%o", "AName", "%o", "AOp", "%o", "Str", "%s", "AFlag", "%o", "]">> >>,
  AttrP |-> << <<"%g", "[", "%o", "AName", "%o", "]">>, <<"%g", "[", "%o", "AName", "%o", "AOp", "%o", "Str", "%o", "]">>, <<"%g", "[", "%o", "AName", "%o", "AOp", "%o", "AVal", "%o", "]">> >>,
  PFun |-> << <<"PNot", "%o", "Sels", "%o", ")">>, <<"PNot", "%o", "Comp", "%o", ")">>, <<"Nth", "%o", "NthA", "%o", ")">>, <<"PLang", "%o", "Word", "%o", ")">>,
             <<"Nth", "%o", "NthN", "%o", "+", "%o", "NthB", "%o", ")">>, <<"Nth", "%o", "NthN", "%s", "-", "%s", "NthB", "%o", ")">>, <<"Nth", "%o", "NthA", "%s", "of", "%w", "Sels", "%o", ")">>,
             <<":has(", "%o", ">", "Sel", "%o", ")">>, <<":has(", "%o", "+", "Sel", "%o", ")">> >>,
  NthN |-> << <<"2n">>, <<"n">>, <<"-n">>, <<"-3N">> >>,
  NthB |-> << <<"1">>, <<"10">> >>,
  PFunP |-> << <<"%g", "PNot", "%o", "Sels", "%o", ")">>, <<"%g", "PNot", "%o", "Comp", "%o", ")">>, <<"%g", "Nth", "%o", "NthA", "%o", ")">>, <<"%g", "PLang", "%o", "Word", "%o", ")">> >>,
  \* ---- declarations
  Decls |-> << <<"Decl">>, <<"Decl", ";">>, <<"Decl", ";", "Decls">>, <<"Decl", ";", "Decls">>, <<";", "Decls">> >>,
  Decl |-> << <<"Prop", ":", "Vals">>, <<"Prop", ":", "Vals">>, <<"Prop", ":", "Vals", "%s", "!important">>, <<"Prop", ":", "Vals", "%o", "!important">>,
              <<"CProp", ":", "CVals">>, <<"Prop", ":", "Vals">>, <<"Hack", ":", "Vals">>, <<"Prop", ":", "Vals", "%s", "!", "%o", "important">>,
            <<"filter", ":", "alpha(", "%o", "opacity", "%o", "=", "%o", "Num", "%o", ")">>, <<"filter", ":", "Dx", "%o", "startColorstr", "%o", "=", "%o", "Str", ",", "endColorstr", "%o", "=", "%o", "Str", "%o", ")">> >>,
  Vals |-> << <<"Val">>, <<"Val">>, <<"Val", "ValR">>, <<"Val", "ValR">>, <<"Val", "ValR">> >>,
  ValR |-> << <<"%s", "Val">>, <<"%s", "Val", "ValR">>, <<",", "Vals">>, <<"%o", "/", "%o", "Val">>, <<"%o", "Plus">>, <<"%s", "Val", "%s", "Val", "%s", "Val">>,
              <<"%o", "Plus", "ValR">>, <<"%o", "/", "%s", "*", "%o", "Val">> >>,
  Val |-> << <<"Word">>, <<"Num">>, <<"Num">>, <<"Word">>, <<"Str">>, <<"Hex">>, <<"Fun">>, <<"Fun">>, <<"Url">>, <<"Math">>, <<"Neg">> >>,
  CVals |-> << <<"Word">>, <<"Num", "%s", "Word">>, <<"Word", "%s", "Word">>, <<"Num", ",", "Num">>, <<"Str">>, <<"Fun">>, <<"Num", "%w", "+", "%w", "Num">>, <<"Math", "%w", "+", "%w", "var(", "%o", "CProp", "%o", ")">>,
             <<"Num", "%w", "-", "%w", "Num">>, <<"Num", "%o", "/", "%o", "Num", "%s", "Word">>, <<"Word", "%w", "+", "%w", "Word", ",", "Num", "%w", "+", "%w", "Num">> >>,
  Fun |-> << <<"FName", "%o", "Args", "%o", ")">>, <<"FName", "%o", "Args", "%o", ")">>, <<"var(", "%o", "CProp", "%o", ")">>, <<"var(", "%o", "CProp", ",", "Vals", "%o", ")">>, <<"FName", "%o", ")">> >>,
  Args |-> << <<"Num">>, <<"Word">>, <<"Vals">>, <<"Val", ",", "Args">>, <<"Num", ",", "Num", ",", "Num">>, <<"Num", "%s", "Num", "%o", "/", "%o", "Num">> >>,
  Url |-> << <<"UrlF", "%z", "Raw", "%z", ")">>, <<"UrlF", "%z", "Raw", "%z", ")">>, <<"UrlF", "%z", "Str", "%o", ")">> >>,
  Math |-> << <<"MName", "%o", "Sum", "%o", ")">>, <<"MName", "%o", "Sum", ",", "Sum", "%o", ")">>, <<"MName", "%o", "Sum", "%o", ")">> >>,
  Sum |-> << <<"Num">>, <<"MTerm", "%w", "PM", "%w", "MTerm">>, <<"MTerm", "%w", "PM", "%w", "MTerm", "%w", "PM", "%w", "MTerm">>, <<"MTerm">> >>,
  PM |-> << <<"+">>, <<"-">> >>,
  MTerm |-> << <<"Num">>, <<"Num">>, <<"MTerm", "%o", "MulDiv", "%o", "Num">>, <<"(", "%o", "Sum", "%o", ")">>, <<"var(", "%o", "CProp", "%o", ")">>, <<"Math">> >>,
  MulDiv |-> << <<"*">>, <<"/">> >>,
  \* ---- at-rules
  AtStm |-> << <<"%D", "@charset", "%s", "Str", ";">>, <<"%D", "@import", "%s", "Str", ";">>, <<"%D", "@import", "%s", "Url", "%s", "Medium", ";">>,
               <<"%D", "@import", "%s", "Str", "%s", "Medium", "%s", "and", "%s", "MFeat", ";">>,
               <<"%D", "@namespace", "%s", "Word", "%s", "Url", ";">>, <<"%D", "@layer", "%s", "Word", ",", "Word", ";">>, <<"%D", "@layer", "%s", "Word", ";">>, <<"%D", "@layer", "%s", "Layer", ",", "Layer", ";">>,
               <<"%D", "@import", "%s", "Url", "%s", "layer(", "%o", "Layer", "%o", ")", "%s", "supports(", "%o", "Prop", "%o", ":", "Word", "%o", ")", ";">>, <<"%D", "@import", "%s", "Str", "%s", "layer", "%s", "MFeat", ";">> >>,
  AtBlk |-> << <<"%D", "@font-face", "{", "Decls", "}">>, <<"%D", "@page", "{", "Decls", "}">>, <<"%D", "@page", "%o", "PPage", "{", "Decls", "}">>,
               <<"%D", "@keyframes", "%s", "Word", "{", "Frames", "}">>, <<"%D", "@-webkit-keyframes", "%s", "Word", "{", "Frames", "}">>, <<"%D", "@property", "%s", "CProp", "{", "Decls", "}">>,
             <<"%D", "@counter-style", "%s", "Word", "{", "Key", ":", "Str", ";", "}">>, <<"%D", "@page", "{", "Decl", ";", "Margin", "{", "Decls", "}", "}">>, <<"%D", "@page", "%s", "Word", "{", "Margin", "{", "Decls", "}", "}">>,
             <<"%D", "@font-feature-values", "%s", "Word", "{", "@styleset", "{", "Prop", ":", "Num", ";", "}", "}">>, <<"%D", "@view-transition", "{", "Decls", "}">>, <<"%D", "@position-try", "%s", "CProp", "{", "Decls", "}">>,
             <<"%D", "@page", "%s", "Word", "%n", "PPage", "{", "Decls", "}">>, <<"%D", "@FONT-FACE", "{", "Decls", "}">> >>,
  Frames |-> << <<"Frame">>, <<"Frame", "Frames">>, <<"Frame", "Frame">> >>,
  Frame |-> << <<"FSel", "{", "Decls", "}">>, <<"FSel", ",", "FSel", "{", "Decls", "}">> >>,
  Group |-> << <<"%D", "@media", "Queries", "{", "Rules", "}">>, <<"%D", "@media", "Queries", "{", "Rules", "}">>, <<"%D", "@supports", "%s", "Cond", "{", "Rules", "}">>,
               <<"%D", "@layer", "%s", "Word", "{", "Rules", "}">>, <<"%D", "@container", "%s", "Word", "%s", "MFeat", "{", "Rules", "}">>, <<"%D", "@container", "%s", "MFeat", "{", "Rules", "}">>, <<"%D", "@layer", "{", "Rules", "}">>,
             <<"%D", "@starting-style", "{", "Rules", "}">>, <<"%D", "@container", "%s", "style(", "%o", "CProp", "%o", ":", "Num", "%o", ")", "{", "Rules", "}">>, <<"%D", "@MEDIA", "Queries", "{", "Rules", "}">> >>,
  Queries |-> << <<"%s", "Medium">>, <<"Query">>, <<"Query", ",", "QueryC">>, <<"Query">> >>,
  Query |-> << <<"%s", "Medium">>, <<"%s", "MFeat">>, <<"%s", "Medium", "%s", "and", "%s", "MFeat">>, <<"%s", "Only", "%s", "Medium", "%s", "and", "%s", "MFeat">>,
               <<"%s", "MFeat", "%s", "AndOr", "%s", "MFeat">>, <<"%s", "Medium", "%s", "and", "%s", "MFeat", "%s", "and", "%s", "MFeat">>, <<"%s", "not", "%s", "MFeat">> >>,
  QueryC |-> << <<"Medium">>, <<"MFeat">>, <<"Medium", "%s", "and", "%s", "MFeat">>, <<"MFeat", "%s", "and", "%s", "MFeat">>, <<"not", "%s", "Medium">> >>,
  AndOr |-> << <<"and">>, <<"or">> >>,
  Only |-> << <<"only">>, <<"not">> >>,
  MFeat |-> << <<"(", "%o", "Feat", "%o", ")">>, <<"(", "%o", "Feat", "%o", ":", "Num", "%o", ")">>, <<"(", "%o", "Feat", "%o", ":", "Word", "%o", ")">>,
               <<"(", "%o", "Feat", "%o", ":", "Num", "%o", "/", "%o", "Num", "%o", ")">>, <<"(", "%o", "Feat", "%o", "Cmp", "%o", "Num", "%o", ")">>, <<"(", "%o", "Feat", "%o", ":", "Math", "%o", ")">>,
             <<"(", "%o", "Num", "%o", "Cmp2", "%o", "Feat", "%o", "Cmp2", "%o", "Num", "%o", ")">> >>,
  Cmp2 |-> << <<"<=">>, <<"<">> >>,
  Cond |-> << <<"CondP">>, <<"not", "%s", "CondP">>, <<"CondP", "%s", "AndOr", "%s", "CondP">>, <<"CondP", "%s", "and", "%s", "(", "%o", "not", "%s", "CondP", "%o", ")">> >>,
  CondP |-> << <<"(", "%o", "Prop", "%o", ":", "Vals", "%o", ")">>, <<"(", "%o", "Prop", "%o", ":", "Word", "%o", ")">>, <<"(", "%o", "CProp", "%o", ":", "Num", "%o", ")">>, <<"(", "%o", "not", "%s", "CondP", "%o", ")">> >>,
  \* ---- exhaustive neighbours (breadth-first runs)
  AdjC |-> << <<"%S", "Sm", "JoinA", "Sm", "{", "color", ":", "red", "}">>, <<"%S", "Sm", "JoinA", "Sm", "JoinB", "Sm", "{", "}">>,
              <<"%S", "PNot", "%o", "Sm", "JoinA", "Sm", "%o", ")", "{", "}">>,
              <<"%D", "@media", "%s", "print", "{", "%S", "Sm", "JoinA", "Sm", "{", "}", "}">>,
              <<"%D", "@media", "%s", "(", "%o", "Feat", "%o", ":", "Num", "%o", ")", "{", "%S", "Sm", "{", "}", "%S", "Sm", "JoinA", "Sm", "{", "}", "}">>,
              <<"%D", "@supports", "%s", "(", "%o", "Prop", "%o", ":", "Word", "%o", ")", "{", "%D", "@media", "%s", "print", "{", "%S", "Sm", "JoinA", "Sm", "{", "}", "}", "}">>,
              <<"%S", "Sm", "{", "color", ":", "red", ";", "}", "%S", "Sm", "JoinA", "Sm", "{", "}">>,
              <<"%S", "a", "{", "%S", "Sm", "JoinA", "Sm", "{", "color", ":", "red", "}", "}">>, <<"%S", "a", "{", "%S", "&", "JoinA", "Sm", "{", "}", "%S", "Sm", "JoinA", "&", "{", "}", "}">>,
              <<"%S", "a", "{", "%D", "@media", "%s", "print", "{", "color", ":", "red", ";", "}", "%S", "Sm", "JoinA", "Sm", "{", "}", "}", "%S", "Sm", "JoinA", "Sm", "{", "}">>,
              <<"%S", "a", "{", "color", ":", "red", ";", "%S", "&", "PartA", "JoinA", "Sm", "{", "}", "}">>, <<"%S", "Ns", "JoinA", "Ns", "{", "}">> >>,
  AdjG |-> << <<"%S", "Sm", "PartA", "{", "}">>, <<"%S", "Sm", "PartA", "PartA", "{", "}">>, <<"%S", "Sm", "PartA", "JoinA", "Sm", "PartA", "{", "}">>,
              <<"%S", "SmA", "%w", "Sm", "PartA", "PartA", "{", "}">> >>,
  AdjV |-> << <<"%S", "a", "{", "Prop", ":", "V1", "%o", "/", "%s", "*", "%o", "V1", "}">>, <<"%S", "a", "{", "Prop", ":", "V1", "JoinV", "V1", "}">>, <<"%S", "a", "{", "Prop", ":", "V1", "JoinV", "V1", "JoinV", "V1", ";", "}">>,
              <<"%S", "a", "{", "Prop", ":", "FName", "%o", "V1", "JoinV", "V1", "%o", ")", "JoinV", "V1", "}">>, <<"%S", "a", "{", "Prop", ":", "V1", "%s", "!important", "}">>,
              <<"%D", "@font-face", "{", "Prop", ":", "V1", "JoinV", "V1", "}">>, <<"%D", "@media", "%s", "print", "{", "%S", "a", "{", "Prop", ":", "V1", "JoinV", "V1", "}", "}">> >>,
  AdjM |-> << <<"%S", "a", "{", "Prop", ":", "MName", "%o", "M1", "JoinM", "M1", "%o", ")", "}">>, <<"%S", "a", "{", "Prop", ":", "V1", "%s", "MName", "%o", "M1", "JoinM", "M1", "JoinM", "M1", "%o", ")", "%s", "V1", "}">>,
              <<"%S", "a", "{", "Prop", ":", "MName", "%o", "(", "%o", "M1", "JoinM", "M1", "%o", ")", "JoinM", "M1", "%o", ")", "}">>,
              <<"%D", "@media", "%s", "(", "%o", "Feat", "%o", ":", "MName", "%o", "M1", "JoinM", "M1", "%o", ")", "%o", ")", "{", "}">> >>,
  Sm |-> << <<"Tag">>, <<"Cls">>, <<"Id">>, <<"*">>, <<"[", "%o", "AName", "%o", "]">>, <<"Psd">>, <<"PNot", "%o", "Cls", "%o", ")">>, <<"Tag", "%g", "Cls">>, <<"Tag", "%g", "Psd">> >>,
  SmA |-> << <<"Tag">>, <<"Cls">>, <<"*">>, <<"[", "%o", "AName", "%o", "]">> >>,
  JoinA |-> << <<"%w">>, <<">">>, <<"+">>, <<"~">>, <<",">> >>,
  JoinB |-> << <<"%w">>, <<">">>, <<",">> >>,
  PartA |-> << <<"%g", "Cls">>, <<"%g", "Psd">>, <<"%g", "[", "%o", "AName", "%o", "]">>, <<"%g", "PNot", "%o", "Tag", "%o", ")">>, <<"%g", "[", "%o", "AName", "%o", "AOp", "%o", "Str", "%o", "]">> >>,
  V1 |-> << <<"Word">>, <<"Num">>, <<"Str">>, <<"Hex">>, <<"Neg">>, <<"UrlF", "%z", "Raw", "%z", ")">>, <<"UrlF", "%z", "Str", "%o", ")">>, <<"FName", "%o", "Num", "%o", ")">>, <<"var(", "%o", "CProp", "%o", ")">> >>,
  JoinV |-> << <<"%s">>, <<",">>, <<"%o", "/", "%o">> >>,
  M1 |-> << <<"Num">>, <<"(", "%o", "Num", "%o", ")">>, <<"var(", "%o", "CProp", "%o", ")">>, <<"MName", "%o", "Num", "%o", ")">> >>,
  JoinM |-> << <<"%w", "+", "%w">>, <<"%w", "-", "%w">>, <<"%o", "*", "%o">>, <<"%o", "/", "%o">> >>
]

FlagSet == {"%g", "%n", "%w", "%s", "%o", "%z", "%S", "%D"}

KindOf(fl) == IF "%n" \in fl THEN "none"
              ELSE IF "%z" \in fl THEN (IF Strict THEN "none" ELSE "ws")
              ELSE IF "%g" \in fl THEN (IF Strict THEN "none" ELSE "glue")
              ELSE IF "%w" \in fl THEN (IF Strict THEN "wstrict" ELSE "w")
              ELSE IF "%s" \in fl THEN (IF Strict THEN "wstrict" ELSE "sep")
              ELSE IF "%o" \in fl THEN (IF Strict THEN "none" ELSE "opt")
              ELSE (IF Strict THEN "ostrict" ELSE "opt")

(* Regions: from %S to the opening brace, selectors; the rest, declarations and at-rules. *)
RECURSIVE Regions(_, _, _, _)
Regions(ts, fs, i, now) ==
    IF i > Len(ts) THEN <<>>
    ELSE LET here == IF "%S" \in fs[i] THEN "sel" ELSE IF "%D" \in fs[i] THEN "decl" ELSE now
         IN <<here>> \o Regions(ts, fs, i + 1, IF ts[i][2] = "{" THEN "decl" ELSE here)

(* Licence comments may stand where whitespace may. *)
RECURSIVE WithLic(_, _, _, _)
WithLic(ts, fs, rs, i) ==
    IF i > Len(ts) THEN <<>>
    ELSE LET kind == KindOf(fs[i])
             lic == /\ LicRate > 0
                    /\ kind \in {"opt", "sep", "ostrict"}
                    /\ Strict => i = 1 \/ ts[i - 1][2] \in {"{", "}", ";"}
                    /\ RandomElement(1 .. LicRate) = 1
             text == IF lic THEN LexData.Lic[RandomElement(1 .. Len(LexData.Lic))] ELSE ""
         IN (IF lic THEN << <<(<<"Lic", text>>), kind, rs[i]>>, <<ts[i], IF Strict THEN "ostrict" ELSE "opt", rs[i]>> >>
             ELSE << <<ts[i], kind, rs[i]>> >>)
            \o WithLic(ts, fs, rs, i + 1)

CssFinish(ts, fs) ==
    LET all == WithLic(ts, fs, Regions(ts, fs, 1, "decl"), 1)
        n == Len(all)
        tail == IF Strict THEN "ostrict" ELSE "opt"
    IN [t |-> [i \in 1 .. n |-> all[i][1][2]],
        c |-> [i \in 1 .. n |-> all[i][1][1]],
        r |-> [i \in 1 .. n |-> all[i][3]],
        g |-> [i \in 1 .. n + 1 |-> IF i = n + 1 \/ i = 1 THEN tail ELSE all[i][2]]]

INSTANCE Grammar WITH Prods <- P, Lex <- LexData, Flags <- FlagSet, Start <- StartSym,
                      MaxFuel <- atoi(IOEnv.VF_FUEL), Exhaustive <- Exh, Reps <- atoi(IOEnv.VF_REPS),
                      OutFile <- IOEnv.VF_OUT, Finish <- CssFinish
=============================================================================
