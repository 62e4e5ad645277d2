----------------------------- MODULE JsGrammar -----------------------------
(***************************************************************************)
(* JavaScript programs whose statements are explicitly terminated, as the  *)
(* derivations of a push-down machine (Grammar).                           *)
(*                                                                         *)
(* A nonterminal ending in N derives expressions that do not start with a  *)
(* regular expression, used where whether a slash starts one is outside    *)
(* the properties (after await, void, yield, of, ...).  "%nl" forbids a    *)
(* line break in the gap (restricted productions).                         *)
(***************************************************************************)
EXTENDS JsLexical, TLC, Json, IOUtils

VARIABLES todo, toks, flags, flag, fuel

LexData == JsonDeserialize("lex/js.json")
StartSym == IOEnv.VF_START
Mode == IOEnv.VF_MODE                       \* "bfs" or "sim"
LicRate == atoi(IOEnv.VF_LIC)               \* one licence comment in LicRate gaps (0: none)
Exh == Mode = "bfs"

P == [
  \* ---- programs and statements
  Prog |-> << <<"Stm">>, <<"Stm", "Prog">>, <<"Stm", "Stm", "Prog">>, <<"Stm", "Stm", "Stm", "Prog">>,
              <<";", "Stm", "Prog">>, <<"Lead", "Stm">> >>,
  Lead |-> << <<";">>, <<";", ";">> >>,
  Stms |-> << <<"Stm">>, <<>>, <<"Stm", "Stms">>, <<"Stm", "Stms">> >>,
  Block |-> << <<"{", "}">>, <<"{", "Stms", "}">>, <<"{", "Stms", "}">> >>,
  Stm |-> << <<"ExpS">>, <<"ExpS">>, <<"ExpS">>, <<"VarS">>, <<"VarS">>, <<"If">>, <<"For">>, <<"Loop">>,
             <<"Ret">>, <<"Thr">>, <<"Sw">>, <<"Try">>, <<"FunD">>, <<"ClsD">>, <<"Misc">>, <<"RxS">>, <<"Block">> >>,
  ExpS |-> << <<"Id", "=", "Id", ";">>, <<"Lhs", "Asg", "A", ";">>, <<"Lhs", "Asg", "A", ";">>, <<"Id", "(", "Args", ")", ";">>,
              <<"Lhs", "Rest", ";">>, <<"Post", ";">>, <<"Upd", "Lhs", ";">>, <<"(", "A", ")", "Sufs", ";">>,
              <<"Id", "Sufs", "(", "Args", ")", ";">>, <<"Str", ";">>, <<"Tmpl", ";">>, <<"!", "UX", ";">>,
              <<"A0", ",", "A", ";">>, <<"[", "Id", ",", "Id", "]", "=", "A", ";">>, <<"await", "UN", ";">>,
              <<"Num", "Bin", "A", ";">>, <<"Asg1", ";">> >>,
  Asg1 |-> << <<"Id", "+=", "U">>, <<"Id", "-=", "U">>, <<"Id", "/=", "A">> >>,
  VarS |-> << <<"VK", "Id", "=", "A", ";">>, <<"VK", "Decl", "Decls", ";">>, <<"VK", "Decl", "Decls", ";">>,
              <<"var", "Id", ";">>, <<"VK", "{", "Id", ",", "Name", ":", "Id", "}", "=", "A", ";">>,
              <<"VK", "[", "Id", ",", ",", "...", "Id", "]", "=", "A", ";">> >>,
  VK |-> << <<"var">>, <<"let">>, <<"const">> >>,
  Decl |-> << <<"Id", "=", "A">>, <<"Id", "=", "A">>, <<"Id", "=", "Str">> >>,
  Decls |-> << <<>>, <<>>, <<",", "Decl", "Decls">> >>,
  If |-> << <<"if", "(", "A", ")", "Block">>, <<"if", "(", "A", ")", "ExpS">>, <<"if", "(", "A", ")", "Block", "else", "Block">>,
            <<"if", "(", "A", ")", "ExpS", "else", "ExpS">>, <<"if", "(", "A", ")", "Block", "else", "If">>,
            <<"if", "(", "A", ")", ";", "else", "ExpS">>, <<"if", "(", "A", ")", "Block", "else", "RxE", ";">>,
            <<"if", "(", "A", ")", "ExpS", "else", "Ret">> >>,
  For |-> << <<"for", "(", ";", ";", ")", "ExpS">>, <<"for", "(", "var", "Id", "=", "Num", ";", "Id", "<", "A", ";", "Upd", "Id", ")", "Block">>,
             <<"for", "(", "VK", "Id", "in", "A", ")", "Block">>, <<"for", "(", "VK", "Id", "of", "N", ")", "ExpS">>,
             <<"for", "(", "Id", "=", "Num", ";", "A", ";", ")", ";">>, <<"for", "(", "Lhs", "in", "A", ")", "ExpS">>,
             <<"for", "(", "var", "Id", "=", "Num", ",", "Id", "=", "Num", ";", "A", ";", "Id", "++", ",", "--", "Id", ")", ";">> >>,
  Loop |-> << <<"while", "(", "A", ")", ";">>, <<"while", "(", "A", ")", "Block">>, <<"do", "Block", "while", "(", "A", ")", ";">>,
              <<"do", "ExpS", "while", "(", "A", ")", ";">>, <<"do", "RxE", ";", "while", "(", "A", ")", ";">>,
              <<"while", "(", "A", ")", "{", "if", "(", "A", ")", "break", ";", "continue", ";", "}">>,
              <<"Id", ":", "while", "(", "A", ")", "{", "break", "%nl", "Id", ";", "}">>,
              <<"Id", ":", "for", "(", ";", ";", ")", "{", "continue", "%nl", "Id", ";", "}">> >>,
  Ret |-> << <<"function", "Id", "(", ")", "{", "return", ";", "}">>, <<"function", "Id", "(", "Params", ")", "{", "Stms", "return", "%nl", "A", ";", "}">>,
             <<"function", "Id", "(", ")", "{", "return", "%nl", "RxE", ";", "}">>,
             <<"function", "Id", "(", ")", "{", "if", "(", "A", ")", "return", "%nl", "U", ";", "return", "%nl", "Str", ";", "}">> >>,
  Thr |-> << <<"throw", "%nl", "A", ";">>, <<"throw", "%nl", "new", "Id", "(", "Args", ")", ";">>, <<"throw", "%nl", "RxE", ";">> >>,
  Sw |-> << <<"switch", "(", "A", ")", "{", "Cases", "}">> >>,
  Cases |-> << <<"case", "A", ":", "break", ";">>, <<"case", "A", ":", "Stm", "Cases">>, <<"default", ":", "Stm">>,
               <<"case", "Str", ":", "case", "Num", ":", "Cases">>, <<"case", "RxE", ":", "break", ";", "Cases">>,
               <<"default", ":", "RxE", ";", "break", ";">> >>,
  Try |-> << <<"try", "Block", "catch", "(", "Id", ")", "Block">>, <<"try", "Block", "finally", "Block">>,
             <<"try", "Block", "catch", "Block", "finally", "Block">>, <<"try", "Block", "catch", "(", "{", "Id", "}", ")", "Block">> >>,
  FunD |-> << <<"function", "Id", "(", "Params", ")", "Block">>, <<"async", "%nl", "function", "Id", "(", "Params", ")", "{", "await", "UN", ";", "}">>,
              <<"function", "*", "Id", "(", "Params", ")", "{", "yield", "%nl", "N", ";", "yield", "%nl", "*", "A", ";", "}">>,
              <<"async", "%nl", "function", "*", "Id", "(", ")", "{", "for", "await", "(", "const", "Id", "of", "N", ")", "Block", "}">> >>,
  ClsD |-> << <<"class", "Id", "{", "Mems", "}">>, <<"class", "Id", "extends", "Mem0", "{", "Mems", "}">> >>,
  Mems |-> << <<>>, <<"Memb", "Mems">>, <<"Memb", "Mems">>, <<"Memb", "Memb">> >>,
  Memb |-> << <<"Name", "(", "Params", ")", "Block">>, <<"static", "Name", "(", ")", "Block">>, <<"get", "Name", "(", ")", "Block">>,
              <<"set", "Name", "(", "Id", ")", "Block">>, <<"Id", "=", "A", ";">>, <<"static", "Id", "=", "A", ";">>, <<"#p", "=", "A", ";">>,
              <<"*", "Name", "(", ")", "Block">>, <<"async", "%nl", "Name", "(", ")", "Block">>, <<"static", "async", "%nl", "*", "Name", "(", ")", "Block">>,
              <<"[", "A", "]", "(", ")", "Block">>, <<"static", "Block">>, <<"constructor", "(", "Params", ")", "{", "super", "(", "Args", ")", ";", "}">>,
              <<";">>, <<"#q", "(", ")", "{", "return", "%nl", "this", ".", "#p", ";", "}">>, <<"Str", "(", ")", "Block">>, <<"static", "#r", ";">>, <<"@dec", "Memb">>, <<"@dec", "(", "Args", ")", "Memb">>, <<"Num", "(", ")", "Block">>, <<"get", "#g", "(", ")", "Block">>,
              <<"Id", ";">> >>,
  Misc |-> << <<";">>, <<"debugger", ";">>, <<"import", "Id", "from", "Str", ";">>, <<"import", "{", "Id", "as", "Id", ",", "Id", "}", "from", "Str", ";">>,
              <<"import", "*", "as", "Id", "from", "Str", ";">>, <<"export", "default", "N", ";">>, <<"export", "{", "Id", "as", "Name", "}", ";">>,
              <<"export", "const", "Id", "=", "A", ";">>, <<"import", "Str", ";">>, <<"export", "*", "from", "Str", ";">>,
              <<"@dec", "class", "Id", "{", "Mems", "}">>, <<"Id", ":", "ExpS">>, <<"import", "Id", ",", "{", "default", "as", "Id", "}", "from", "Str", ";">>, <<"export", "*", "as", "Name", "from", "Str", ";">>, <<"export", "function", "Id", "(", ")", "Block">>, <<"import", "Id", "from", "Str", "with", "{", "Name", ":", "Str", "}", ";">>, <<"with", "(", "Id", ")", "ExpS">>, <<"import", "(", "Str", ")", ";">>,
              <<"if", "(", "Id", "in", "Id", ")", "Block">>, <<"delete", "Mem0", ".", "Name", ";">> >>,
  RxS |-> << <<"Id", "=", "A", ";", "RxE", ";">>, <<"Id", "(", ")", ";", "Rx", ".", "test", "(", "A", ")", ";">>, <<"{", "RxE", ";", "}">> >>,
  RxE |-> << <<"Rx">>, <<"Rx", ".", "Name", "(", "Args", ")">>, <<"Rx", "[", "A", "]">>, <<"Rx", "in", "Id">>, <<"Rx", "instanceof", "Id">>, <<"Rx", "?", "A", ":", "A">> >>,
  \* ---- expressions
  A |-> << <<"Id">>, <<"B">>, <<"B">>, <<"B">>, <<"Lhs", "Asg", "A">>, <<"B", "?", "A", ":", "A">>, <<"Arrow">>, <<"RxE">>, <<"Rx">>, <<"B">> >>,
  A0 |-> << <<"Id">>, <<"Lhs", "Asg", "A">>, <<"Id", "(", "Args", ")">> >>,
  N |-> << <<"Id">>, <<"UN", "Rest">>, <<"UN", "Rest", "?", "A", ":", "A">>, <<"Arrow">> >>,
  B |-> << <<"U">>, <<"U", "Rest">>, <<"U", "Rest">>, <<"PrimN", "**", "N1">>, <<"(", "Id", "??", "N1", ")">> >>,
  N1 |-> << <<"Id">>, <<"Num">>, <<"(", "A", ")">> >>,
  Rest |-> << <<>>, <<"Bin", "B">>, <<"Bin", "U">>, <<"^", "U", "Rest">>, <<"Bin", "Rx">>, <<"-", "U">>, <<"+", "U">>, <<"/", "U">>, <<"/", "Rx">> >>,
  U |-> << <<"Id">>, <<"Mem">>, <<"Mem">>, <<"Mem">>, <<"Post">>, <<"Upd", "Lhs">>, <<"-", "U">>, <<"+", "U">>, <<"!", "UX">>, <<"~", "U">>,
           <<"typeof", "U">>, <<"void", "UN">>, <<"delete", "Mem0", ".", "Name">>, <<"await", "UN">>, <<"typeof", "Rx">>, <<"Rx">>, <<"Num">>, <<"Str">>, <<"Tmpl">> >>,
  UN |-> << <<"Id">>, <<"PrimN", "Sufs">>, <<"Post">>, <<"Upd", "Lhs">>, <<"-", "U">>, <<"!", "UX">>, <<"~", "U">>, <<"typeof", "U">>, <<"Num">>, <<"Str">> >>,
  UX |-> << <<"Id">>, <<"!", "UX">>, <<"~", "UX">>, <<"PrimN", "Sufs">>, <<"(", "A", ")">>, <<"typeof", "U">>, <<"Rx", ".", "test", "(", "A", ")">>, <<"Str">> >>,
  Upd |-> << <<"++">>, <<"--">> >>,
  Post |-> << <<"Lhs", "%nl", "++">>, <<"Lhs", "%nl", "--">> >>,
  Lhs |-> << <<"Id">>, <<"Id">>, <<"Mem0", ".", "Name">>, <<"Mem0", "[", "A", "]">>, <<"this", ".", "Name">> >>,
  Mem0 |-> << <<"Id">>, <<"Id", "Sufs">>, <<"this">>, <<"(", "A", ")", "Sufs">> >>,
  Mem |-> << <<"Id">>, <<"PrimN", "Sufs">>, <<"PrimN", "Sufs">>, <<"Num", ".", "Name">>, <<"Str", ".", "Name">>, <<"Tmpl", ".", "Name", "(", ")">> >>,
  Sufs |-> << <<>>, <<>>, <<"Suf", "Sufs">> >>,
  Suf |-> << <<".", "Name">>, <<"[", "A", "]">>, <<"(", "Args", ")">>, <<"Tmpl">>, <<"?.", "Name">>, <<"?.", "[", "A", "]">>, <<"?.", "(", "Args", ")">>, <<".", "Name", "(", "Args", ")">>,
             <<"(", "Args", ")", ".", "Name">> >>,
  PrimN |-> << <<"Id">>, <<"Num">>, <<"Str">>, <<"Tmpl">>, <<"true">>, <<"false">>, <<"null">>, <<"this">>, <<"(", "A", ")">>, <<"[", "List", "]">>,
               <<"(", "Obj", ")">>, <<"new", "Id", "(", "Args", ")">>, <<"function", "(", "Params", ")", "Block">>, <<"(", "class", "{", "Mems", "}", ")">>,
               <<"[", "List", "]">>, <<"(", "A", ",", "A", ")">>, <<"new", "Id">>, <<"super", ".", "Name">>, <<"new", ".", "target">>, <<"import", ".", "meta", ".", "Name">>, <<"import", "(", "A", ")">>, <<"new", "Mem0", ".", "Name", "(", "Args", ")">>, <<"(", "#p", "in", "Id", ")">>, <<"(", "function", "(", ")", "Block", "(", ")", ")">> >>,
  Obj |-> << <<"{", "}">>, <<"{", "Prop", "}">>, <<"{", "Prop", ",", "Prop", "}">>, <<"{", "Prop", ",", "Prop", ",", "Prop", ",", "}">> >>,
  Prop |-> << <<"Id">>, <<"Name", ":", "A">>, <<"Name", ":", "A">>, <<"Str", ":", "A">>, <<"Num", ":", "A">>, <<"[", "A", "]", ":", "A">>,
              <<"get", "Name", "(", ")", "Block">>, <<"...", "A">>, <<"Name", "(", "Params", ")", "Block">>, <<"*", "Name", "(", ")", "Block">>,
              <<"async", "%nl", "Name", "(", ")", "Block">>, <<"Name", ":", "Obj">> >>,
  List |-> << <<>>, <<"A">>, <<"A", ",", "List">>, <<",", "List">>, <<"...", "A">>, <<"Str", ",", "Str">> >>,
  Args |-> << <<>>, <<"A">>, <<"A", ",", "Args">>, <<"...", "A">>, <<"Obj">>, <<"Fun">>, <<"Str">> >>,
  Fun |-> << <<"function", "(", "Params", ")", "Block">>, <<"Arrow">>, <<"async", "%nl", "function", "(", ")", "Block">>, <<"function", "*", "(", ")", "Block">> >>,
  Arrow |-> << <<"Id", "%nl", "=>", "A">>, <<"(", "Params", ")", "%nl", "=>", "A">>, <<"(", "Params", ")", "%nl", "=>", "Block">>,
               <<"async", "%nl", "(", "Params", ")", "%nl", "=>", "Block">>, <<"(", ")", "%nl", "=>", "(", "Obj", ")">>,
               <<"async", "%nl", "Id", "%nl", "=>", "A">> >>,
  Params |-> << <<>>, <<"Id">>, <<"Id", ",", "Id">>, <<"Id", "=", "A">>, <<"Id", ",", "...", "Id">>, <<"{", "Id", ",", "Id", "=", "A", "}">>, <<"[", "Id", "]", "=", "[", "]">> >>,
  Name |-> << <<"Id">>, <<"Kw">>, <<"Id">> >>,
  \* ---- programs with the same strings again and again (aggregation)
  AggProg |-> << <<"AggS", "AggS", "AggS">>, <<"AggS", "AggS", "AggProg">>, <<"AggS", "AggProg">>, <<"AggS", "AggS", "AggProg">>, <<"AggV", "AggProg">>, <<";", "AggS", "AggS">> >>,
  AggS |-> << <<"x", "(", "Dup", ")", ";">>, <<"x", "=", "Dup", "+", "Dup", ";">>, <<"x", "=", "[", "Dup", ",", "Dup", "]", ";">>,
              <<"x", "(", "Dup", ",", "AggE", ")", ";">>, <<"throw", "%nl", "Dup", ";">>, <<"x", "=", "typeof", "Dup", ";">>,
              <<"x", "=", "Dup", "in", "AggE", ";">>, <<"if", "(", "x", ")", "{", "AggS", "}", "else", "Dup", ";">>,
              <<"x", "=", "DTm", "+", "DTm", ";">>, <<"switch", "(", "x", ")", "{", "case", "Dup", ":", "AggS", "}">>,
              <<"function", "f", "(", ")", "{", "return", "%nl", "Dup", ";", "}">>, <<"function", "f", "(", ")", "{", "AggS", "AggV", "return", "%nl", "Dup", ";", "}">>,
              <<"RId", "=", "Dup", ";">>, <<"x", ".", "RId", "=", "Dup", ";">>, <<"x", "=", "Dup", ".", "length", ";">>, <<"x", "=", "Dup", "[", "0", "]", ";">>,
              <<"AggV">>, <<"AggV">>, <<"x", "=", "(", "RId", ")", "=>", "Dup", ";">>, <<"x", "=", "AggE", "?", "Dup", ":", "Dup", ";">>,
              <<"while", "(", "Dup", ")", "{", "AggS", "AggS", "}">>, <<"x", "=", "Rx", "+", "Dup", "/", "Num", ";">> >>,
  AggE |-> << <<"Id">>, <<"RId">>, <<"Dup">>, <<"Num">>, <<"Dup", "+", "Id">>, <<"DTm">> >>,
  AggV |-> << <<"var", "RId", "=", "Dup", ";">>, <<"let", "RId", "=", "Dup", ";">>, <<"var", "RId", "=", "Dup", ",", "RId", "=", "Dup", ";">>,
              <<"var", "RId", "=", "Dup", "+", "AggE", ";">>, <<"var", "RId", ";">>, <<"var", "Id", "=", "Dup", ";">>, <<"var", "RId", "=", "Dup", ".", "length", ";">>,
              <<"const", "RId", "=", "Dup", ";">>, <<"var", "RId", "=", "DTm", ";">>, <<"let", "Id", "=", "Dup", ",", "RId", "=", "Dup", ";">>,
              <<"var", "RId", ",", "RId", "=", "Dup", ";">>, <<"for", "(", "var", "RId", "=", "Dup", ";", "x", ";", ")", "AggS">>,
              <<"function", "RId", "(", "RId", ")", "{", "AggS", "}">>, <<"function", "f", "(", "Id", "=", "Dup", ",", "RId", "=", "Dup", ")", "{", "AggS", "}">>,
              <<"class", "RId", "{", "RId", "=", "Dup", ";", "}">>, <<"RId", ":", "while", "(", "x", ")", "{", "AggS", "}">>,
              <<"var", "Id", "=", "x", "(", "Dup", ",", "RId", "=", "Dup", ")", ";">>, <<"var", "RId", "=", "RId", "=", "Dup", ";">>,
              <<"var", "Id", "=", "x", ",", "RId", "=", "Dup", ";">>, <<"var", "RId", "=", "Dup", "in", "x", ";">>, <<"let", "RId", "=", "Num", ",", "RId", "=", "Dup", ";">>,
              <<"var", "{", "RId", "=", "Dup", "}", "=", "x", ";">>, <<"var", "[", "RId", "=", "Dup", "]", "=", "x", ";">>,
              <<"var", "Id", "=", "{", "a", ":", "Dup", "}", ",", "RId", "=", "Dup", ";">>, <<"var", "Id", "=", "function", "(", ")", "{", "AggS", "}", ",", "RId", "=", "Dup", ";">> >>,
  AggArr |-> << <<"AggR", "AggProg">>, <<"AggR", "AggProg">>, <<"AggR", "AggProg">>, <<"AggS", "AggR", "AggProg">>, <<"AggS", "AggS", "AggR", "AggProg">>, <<"AggProg">>, <<"AggProg">> >>,
  AggR |-> << <<"VR", "R", "=", "[", "AggL", "]", ";">>, <<"VR", "R", "=", "[", "AggL", "]", ";">>, <<"VR", "R", "=", "[", "]", ";">>, <<"VR", "R", "=", "[", "AggL", "]", ",", "Id", "=", "Dup", ";">>,
              <<"VR", "R", "=", "[", "AggX", ",", "AggL", "]", ";">>, <<"VR", "R", "=", "[", "AggL", ",", "AggX", "]", ";">> >>,
  VR |-> << <<"var">>, <<"let">> >>,
  AggL |-> << <<"Dup">>, <<"Dup", ",", "AggL">>, <<"Dup", ",", "AggL">>, <<"Dup", ",">>, <<",", "AggL">>, <<"Num", ",", "AggL">>, <<"Id">>, <<"DTm", ",", "AggL">>, <<"null", ",", "Dup">>,
              <<"Dup", "+", "Dup", ",", "AggL">> >>,
  AggX |-> << <<"[", "Dup", "]">>, <<"x", "(", "Dup", ")">>, <<"...", "Id">>, <<"{", "a", ":", "Dup", "}">>, <<"(", "Dup", ")">>, <<"Id", "[", "Dup", "]">>, <<"Id", ".", "b">>, <<"!", "Dup">>, <<"Rx">>, <<"x", "?", "Dup", ":", "Dup">> >>,
  \* ---- declarations (look-up)
  Decl1 |-> << <<"DV", "DeclProg">>, <<"DV", "DV", "DeclProg">>, <<"Stm", "DV", "DeclProg">>, <<"DV">> >>,
  DeclProg |-> << <<"DV">>, <<"DV", "DeclProg">>, <<"DV", "DeclProg">>, <<"DV", "ExpS", "DeclProg">>, <<"ExpS">> >>,
  DV |-> << <<"VR", "DId", "=", "DVal", ";">>, <<"VR", "DId", ";">>, <<"VR", "DId", ",", "DId", "=", "DVal", ";">>, <<"VR", "DId", "=", "DVal", ",", "DId", ";">>,
            <<"VR", "DId", "=", "DVal", "+", "A", ";">>, <<"VR", "DId", "=", "DVal", ".", "Name", "(", ")", ";">>, <<"for", "(", "VR", "DId", "=", "DVal", ";", ";", ")", ";">>,
            <<"VR", "DId", "=", "PrimN", ";">> , <<"VR", "[", "DId", "]", "=", "DVal", ";">>, <<"VR", "{", "DId", "}", "=", "DVal", ";">>, <<"for", "(", "VR", "DId", "in", "Id", ")", "DV">>,
            <<"for", "(", "VR", "DId", "of", "Id", ")", "DV">>, <<"VR", "DId", ",", "DId", ";">> >>,
  DVal |-> << <<"Str">>, <<"Num">>, <<"Rx">>, <<"DId">>, <<"Tmpl">>, <<"DId">> >>,
  DId |-> << <<"a">>, <<"x1">>, <<"r_aa">>, <<"é">>, <<"$">>, <<"of">> >>,
  \* ---- exhaustive adjacency (breadth-first runs)
  Adj |-> << <<"x", "=", "Opd", "Bin", "Opd", ";">> >>,
  AdjU |-> << <<"x", "=", "Id", "BinU", "Pre", "Pre0", "Id", ";">>, <<"x", "=", "Opd", "BinU", "Pre", "Opd", ";">>,
              <<"x", "=", "Opd", "BinU", "Pre0", "Upd", "Id", ";">> >>,
  AdjP |-> << <<"x", "=", "Id", "%nl", "Upd", "Bin", "OpdS", ";">>, <<"x", "=", "Id", "%nl", "Upd", "BinU", "Pre", "OpdS", ";">>, <<"x", "=", "Id", "%nl", "Upd", "BinU", "Upd", "Id", ";">> >>,
  AdjS |-> << <<"x", "=", "Opd", "SufA", ";">>, <<"x", "=", "(", "Opd", ")", "SufB", ";">>, <<"x", "=", "[", "Opd", ",", "Opd", "]", ";">>,
              <<"x", "=", "Opd", "?", "Opd", ":", "Opd", ";">> >>,
  AdjK |-> << <<"x", ".", "Kw", "/", "2", "/", "g", ";">>, <<"x", ".", "Kw", "Bin", "y", ";">>, <<"x", "=", "{", "Kw", ":", "OpdS", "}", ";">>,
              <<"x", "=", "{", "Kw", "(", ")", "{", "}", "}", ";">>, <<"KwPre", "OpdS", ";">>, <<"x", "=", "y", "KwIn", "OpdS", ";">>,
              <<"x", "=", "OpdS", "KwIn", "z", ";">>, <<"x", "?.", "Kw", ";">>,
              <<"x", "=", "{", "get", "Kw", "(", ")", "{", "}", "}", ";">>, <<"x", "=", "{", "async", "%nl", "Kw", "(", ")", "{", "}", "}", ";">> >>,
  AdjA |-> << <<"x", "Asg", "Pre0", "Opd", ";">>, <<"x", "Asg", "Rx", ";">>, <<"x", "Asg", "(", "Opd", ")", ";">> >>,
  AdjL |-> << <<"x", "=", "Opd", "Lic", "Bin", "Opd", ";">>, <<"x", "=", "Opd", "Bin", "Lic", "OpdS", ";">>, <<"Lic", "Opd", ".", "Name", "Lic", ";">>,
              <<"x", "=", "Lic", "Opd", "Lic", "Lic", ";", "Lic">>, <<"KwPre", "Lic", "OpdS", ";">>, <<"x", "=", "Id", "%nl", "Upd", "Lic", "Bin", "Lic", "OpdS", ";">> >>,
  KwPre |-> << <<"throw", "%nl">>, <<"x", "=", "typeof">>, <<"x", "=", "y", "in">>, <<"x", "=", "y", "instanceof">>, <<"if", "(", "x", ")", ";", "else">> >>,
  KwIn |-> << <<"in">>, <<"instanceof">> >>,
  BinU |-> << <<"+">>, <<"-">>, <<"*">>, <<"/">>, <<"%">>, <<"<">>, <<"&&">>, <<"=">>, <<"+=">>, <<"in">>, <<"?", "y", ":">>, <<",">>, <<"==">> >>,
  Pre |-> << <<"-">>, <<"+">>, <<"!">>, <<"~">>, <<"typeof">> >>,
  Pre0 |-> << <<>>, <<"-">>, <<"+">>, <<"typeof">> >>,
  SufA |-> << <<".", "Name">>, <<"[", "0", "]">>, <<"(", ")">>, <<"?.", "Name">>, <<"Tmpl">>, <<",", "Id">>, <<"in", "Id">>, <<"instanceof", "Id">> >>,
  SufB |-> << <<".", "Name">>, <<"/", "2">>, <<"in", "Id">>, <<"%nl", "++">>, <<"[", "0", "]">> >>,
  Opd |-> << <<"Id">>, <<"Num">>, <<"Str">>, <<"Tmpl">>, <<"Rx">>, <<"KwV">>, <<"(", "Id", ")">>, <<"[", "Id", "]">> >>,
  OpdS |-> << <<"Id">>, <<"Num">>, <<"Str">>, <<"Rx">>, <<"(", "Id", ")">> >>,
  KwV |-> << <<"true">>, <<"false">>, <<"null">>, <<"this">> >>
]

FlagSet == {"%nl"}

(* Licence comments may stand in any gap. *)
RECURSIVE WithLic(_, _, _)
WithLic(ts, fs, i) ==
    IF i > Len(ts) THEN <<>>
    ELSE LET here == IF LicRate > 0 /\ RandomElement(1 .. LicRate) = 1
                     THEN << <<(<<"Lic", LET cls == IF fs[i] = {} /\ RandomElement(1 .. 4) = 1 THEN "LicNl" ELSE "Lic"
                                         IN LexData[cls][RandomElement(1 .. Len(LexData[cls]))]>>), fs[i]>> >>
                     ELSE <<>>
         IN here \o << <<ts[i], fs[i]>> >> \o WithLic(ts, fs, i + 1)

JsFinish(ts, fs) ==
    LET all == WithLic(ts, fs, 1)
        n == Len(all)
        tk(i) == all[i][1]
    IN [t |-> [i \in 1 .. n |-> tk(i)[2]],
        c |-> [i \in 1 .. n |-> tk(i)[1]],
        g |-> [i \in 1 .. n + 1 |-> IF i = 1 THEN "any" ELSE IF i = n + 1 THEN "end"
                                    ELSE GapKind(tk(i - 1), tk(i), all[i][2])]]

INSTANCE Grammar WITH Prods <- P, Lex <- LexData, Flags <- FlagSet, Start <- StartSym,
                      MaxFuel <- atoi(IOEnv.VF_FUEL), Exhaustive <- Exh, Reps <- atoi(IOEnv.VF_REPS),
                      OutFile <- IOEnv.VF_OUT, Finish <- JsFinish
=============================================================================
