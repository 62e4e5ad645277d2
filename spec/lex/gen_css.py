# Generates css.json (the components of generated style sheets) and css_layout.json (their gaps).
import json, os
D = os.path.dirname(os.path.abspath(__file__))
L = {}
L["Tag"] = ["a","div","p","h1","li","x-foo","button","日本","svg","B","\\31 x","a\\:b","media"]
L["Cls"] = [".a",".b-c","._x",".é",".x1",".a\\:b",".-m",".B",".sm\\/x",".calc",".\\31 0",".w-\\[5px\\]",".a\\(b\\)",".a\\,b",".a\\{b\\}",".a\\;b",".a\\\"b",".a\\>b",".a\\'b"]
L["Id"] = ["#id","#x-1","#日本","#a\\.b","#a\\[b","#\\}c","#ID","#"+"x"*300]
L["Star"] = ["*"]
L["Psd"] = [":hover",":first-child",":root",":not-a-func",":visited",":-moz-any-link",":focus-visible"]
L["PEl"] = ["::before","::after","::-webkit-scrollbar","::marker"]
L["AName"] = ["href","data-x","lang","type","b\\]c","x\\:y","\\[d","*|lang","xlink|href"]
L["AOp"] = ["=","~=","|=","^=","$=","*="]
L["AVal"] = ["en","x1","submit","a-b","a\\]b","\\.x","a\\\"b"]
L["AFlag"] = ["i","s"]
L["PNot"] = [":not(",":is(",":where(",":has("]
L["Nth"] = [":nth-child(",":nth-of-type(",":nth-last-child("]
L["NthA"] = ["2n","odd","even","3","n","-n","4n","N"]
L["PLang"] = [":lang(",":dir("]
L["Prop"] = ["color","margin","background","font","-webkit-x","grid-template-areas","transition","content","width","B"]
L["CProp"] = ["--x","--a-b","--é"]
L["Word"] = ["red","solid","auto","foo-bar","inherit","Arial","x1","--v","é","and","or","not","only","url","calc","a\\ b","a\\;b","\\{x","a\\}b","a\\'b","important","ltr","a-"+"long-"*60+"word"]
L["Num"] = ["0","1px","2.5em","50%",".5s","1e3","0.0","100vh","3fr","1x","007","1.50em","1E3","1e-3","U+0-7F","U+4??","0"*40+"1px"]
L["Neg"] = ["-1px","-.5em","-0"]
L["Plus"] = ["+2px","+.5em"]
L["Hex"] = ["#fff","#A1B2C3","#00000080"]
L["Str"] = ['"a"',"'b'",'""',"'it\"s'",'"it\'s"','"/* no */"',"'  two  '",'"\\""',"'\\''",'"a;b{c}"','"é日"','"//"','"\\\\"','"a\\\nb"',"'[x]'","'url('","'}'","'@media'","'\\201C'","'😀'","'a > b + c'"]
L["UrlF"] = ["url(","url(","URL(","Url(","uRl("]
L["FName"] = ["rgb(","translate(","attr(","linear-gradient(","cubic-bezier(","foo-bar(","repeat(","minmax(","hsl(","X(","env(","image-set("]
L["MName"] = ["calc(","min(","max(","clamp(","-webkit-calc(","CALC(","round(","Max(","sin("]
L["Raw"] = ["a.png","http://x.y/z?a=b&c","data:image/png;base64,iVBOR+/=","//x/*y","a%20b","#frag","x*/y","../a/b.svg","a\\)b","data:,a'b".replace("'",""),"*","é.png","data:image/svg+xml;charset=utf8,%3Csvg+"+"xmlns=/"*40+"*/%3E","a;b","x,y"]
L["Feat"] = ["max-width","min-width","orientation","color","width","hover","-webkit-min-device-pixel-ratio"]
L["Cmp"] = [">=","<=",">","<","="]
L["Medium"] = ["screen","print","all"]
L["PPage"] = [":first",":left"]
L["FSel"] = ["from","to","50%","0%","33.3%"]
L["Key"] = ["suffix","syntax","range"]
L["Margin"] = ["@top-left","@bottom-center"]
L["Hack"] = ["*zoom","_height","*width"]
L["Amp"] = ["&"]
L["Ns"] = ["svg|a","*|a","*|*","|a","ns|b"]
L["Dx"] = ["progid:DXImageTransform.Microsoft.gradient("]
L["Layer"] = ["a.b","base","x.y.z"]
L["Lic"] = ["/*!*/","/*! licence */","/** doc */","/*!  two  */","/*! it's \" */","/*! // */","/*! é */","/*!\n * multi\n */","/** a\tb */","/*! { ; } */","/**a**/","/*!**/"]
json.dump(L, open(os.path.join(D,"css.json"),"w"), ensure_ascii=False, indent=0)
A = []
def atom(s, k):
    A.append({"s": s, "k": k}); return len(A)-1
ws = [atom(s,"ws") for s in [" ","\n","  ","\t","\r\n","\n\n    "," \t ","\r","\n\t","\f"]]
bc = [atom(s,"bc") for s in ["/* c */","/**/","/* it's */","/* \" */","/*/ */","/* // */","/*\n*/","/* é */","/* { } ; : */","/* \\*/","/*a*//*b*/","/* ! */","/*x\n * y\n */","/* a * / b */","/***/" if False else "/* ** */","/* [ ( */","/* url( */","/*日本😀*/","/*\"*/","/* > + ~ */","/*@media*/","/*,*/"]]
wbc = [atom(s,"wbc") for s in [" /* c */","/* c */ "," /* c */ ","\n/* it's */\n","/**/\n"," /*a*/ /*b*/ ","\t/* \" */"]]
lay = {"atoms": A, "kinds": {
 "opt":  {"min":0,"max":3,"first":[],"atoms": ws+bc+wbc},
 "sep":  {"min":1,"max":3,"first":[],"atoms": ws+bc+wbc},
 "w":    {"min":1,"max":3,"first":ws+wbc,"atoms": ws+bc+wbc},
 "glue": {"min":0,"max":2,"first":[],"atoms": bc, "rare": 1},
 "ws":   {"min":0,"max":2,"first":[],"atoms": ws},
 "none": {"min":0,"max":0,"first":[],"atoms":[]},
 "ostrict": {"min":0,"max":2,"first":ws+wbc,"atoms": ws+wbc},
 "wstrict": {"min":1,"max":2,"first":ws+wbc,"atoms": ws+wbc}}}
json.dump(lay, open(os.path.join(D,"css_layout.json"),"w"), ensure_ascii=False, indent=0)
