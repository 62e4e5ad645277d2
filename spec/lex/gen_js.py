# Generates js.json: the lexemes of the generated programs, by class (see JsGrammar.tla).
import json, os
L = {}
L["Id"] = ["a","b","x1","$","_","inx","newish","instanceofx","é","varx","_in","of","get","typeofs","日本","nan","inf","infinity","r_aa","forEach","E","e5","Infinity","returned","$in","a$b","ünïcode","docase","İ","\\u0061b","a\\u00e9","_","$0","ªb","𝒳","𠮷x","voids","elsewhere","do_","returnValue","x‍","of1"]
L["Kw"] = ["break","case","catch","const","continue","default","do","else","false","finally","function","for","if","in","instanceof","let","new","null","private","protected","public","return","switch","this","throw","true","try","typeof","static","var","while","class","delete","void","yield","async","await","extends","super","with","debugger","import","export","enum"]
L["Num"] = ["0","1","42","3.14",".5","5.","0.5","1e3","1e21","1E5","1e-7","1e+9","017","007","0777","08","0xFF","0XaB","0b101","0o17","10n","1_000","99999999999999999999999","18446744073709551616","18446744073709551615","1.50","00","0.0","1.e5",".5e-3","2.0e+10","0x1F_FF","1000000","123456789012345678901234567890.5","0e0","4294967296","1_0.0_1e1_0","0O7","0B1","0XFFn","0n","9.","1E+5","0.1e-10","6.02e23","09.5","0x1e5"]
L["Str"] = ['"a"',"'b'",'""',"''",'"it\'s"',"'say \"hi\"'",'"\\""',"'\\''",'"\\\\"',"'\\\\'",'"//"',"'/*'",'"*/"','"a /* b */ c"',"'// not'",'"  two  spaces  "',"'\t'",'"é"',"'日本 '",'"`"',"'${x}'",'"\\\\\\""','"a\\\nb"',"'\\u00e9'",'"{};,"',"' '",'"+ +"','"var x"',"'/x/g'",'"\\n"','"😀"','"</script>"',"'a\\\n  b'",'"[a"','"\'"',"'\"'"]
L["Tmpl"] = ["``","`a`","`a b`","`${x}`","`a ${ b + c } d`","`\\``","`\\${`","`${`in`}`","`${ {a:1}.a }`","`line1\n  line2`","`'\"`","`//x`","`/* x */`","`${a ? `y${b}` : 'n'}`","`${'}'}`","`${\"`\"}`","`$`","`$$ {`","`${a}${b}`","`é${日}`","`\\\\`","`${f({b: `}`})}`","`{`","`}`","`${x /* it's } */}`","`${x // }\n}`","`${/[}`']/.test(s)}`","`${a / b} ' ${c / d}`","`   `","`${ `${ `deep` }` }`","`\n`","`${fn(`a\n  b`)}`"]
L["Rx"] = ["/x/","/x/g","/x/i","/x/gi","/[/]/","/\\//","/[^/\\]]*/g","/a b/","/\"/","/'/","/`/","/\\\\/","/=/","/[\"']/","/a{2,3}/","/(?:x)/m","/x/gimsuy","/é/u","/;/","/\\[/","/[[/]/","/}/","/\\*/","/[*]/","/x$/y","/ /","/  /","/a|b/gg" ,"/\\/\\*/","/\\s+\\/\\//i","/in/","/!/","/a ; +/d","/[ a ] b/v","/. x/s","/^ a $/su","/a  b/dgimsuy","/\\/ \\//i","/[\\]\\/ ]/","/[\\\\]/","/\\[ ]/","/a\\\\/","/=  =/","/(?<n>a) \\k<n>/u"]
L["Rx"].remove("/a|b/gg")
L["Bin"] = ["+","-","*","/","%","<",">","<=",">=","==","!=","===","!==","<<",">>",">>>","&","|","&&","||","in","instanceof","^"]
L["Asg"] = ["=","+=","-=","*=","/=","%=","<<=",">>=",">>>=","&=","|=","^=","**=","&&=","||=","??="]
L["Lic"] = ["/*!*/","/*! licence */","/*! a  b\t*/","/*!*/","/*! it's */","/*!**/","/*! // */","/*! é */","/*!/*/","/*!x*/"]
L["LicNl"] = ["/*!\n * multi\n * line\n */","/*!\r\n*/"]
L["Dup"] = ['"a long string"','"a long string"',"'a long string'",'"another long one"','"another long one"',"'say \"hi\" to it'","'say \"hi\" to it'",'"it\'s quoted here"','"\\"escaped\\" quotes"','"tiny"','"é日本 unicode text"','"é日本 unicode text"','"a\\\nb continued"','"/* no comment */"','""','"x"',"'  spaces  inside '",'"${no} template"',"'say \\\"hi\\\" to it'",'"r_aa is a name"','"it\\\'s quoted here"']
L["DTm"] = ["`a long string`","`a ${b} string`","`another long one`","``","`r_aa ${r}`"]
L["RId"] = ["r_aa","r_ba","r_ca","r_ab","r_x","r_aa","r_","r_da"]
json.dump(L, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"js.json"),"w"), ensure_ascii=False, indent=0)
A = []
def atom(s, k):
    A.append({"s": s, "k": k}); return len(A)-1
ws = [atom(s,"ws") for s in [" ","  ","\t"," \t "]]
nl = [atom(s,"nl") for s in ["\n","\r\n","\n\n","\r","\n    ","  \n"," \n \n "]]
bc = [atom(s,"bc") for s in ["/* c */","/**/","/***/","/*/ */","/* it's */","/* \" ` */","/* // */","/* é */","/** doc */","/* \\*/","/*a*//*b*/","/* ! */","/* ${ */","/* /x/ */","/****/","/* a * / b */","/*=*/","/* { ; */","/*//*/","/*\"*/","/*日本😀*/"]]
bcn = [atom(s,"bcn") for s in ["/*\n*/","/*\n * it's\n */","/*\r\n!*/","/* a\n// b */"]]
lc = [atom(s,"lc") for s in ["// c\n","//\n","// it's\n","// /* \n","//! x\n","// é\r\n","// \\\n","//*/\n","// a\n// b\n","/// \"\n","// `${\n","// c\r","//\t\n","// {\n","//日本\n"]]
eof = [atom(s,"eof") for s in ["// end","//","// it's the end","//*","// é","// end\\"]]
lay = {"atoms": A, "kinds": {
 "any": {"min":0,"max":3,"first":[],"atoms": ws+nl+bc+bcn+lc},
 "need":{"min":1,"max":3,"first":[],"atoms": ws+nl+bc+bcn+lc},
 "nonl":{"min":0,"max":3,"first":[],"atoms": ws+bc},
 "neednonl":{"min":1,"max":3,"first":[],"atoms": ws+bc},
 # after a lexeme ending with a slash: a comment cannot come first
 "slash":{"min":0,"max":3,"first":ws+nl,"atoms": ws+nl+bc+bcn+lc},
 "needslash":{"min":1,"max":3,"first":ws+nl,"atoms": ws+nl+bc+bcn+lc},
 "slashnonl":{"min":0,"max":3,"first":ws,"atoms": ws+bc},
 "end":{"min":0,"max":2,"first":[],"atoms": ws+nl+bc+bcn+lc, "last": eof},
 "none":{"min":0,"max":0,"first":[],"atoms":[]}}}
json.dump(lay, open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"js_layout.json"),"w"), ensure_ascii=False, indent=0)
