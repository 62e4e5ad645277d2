# Generates js_lits.json: the units of JsLiterals.
import json, os
D = os.path.dirname(os.path.abspath(__file__))
L = {}
plain = ["a", " ", "é", "😀", "/*", "*/", "//", "{", "}", "`", "${", "0", "\t", "  ", "(", "]", ";", "/", "<!--", "\u2028", "\u00a0", "$", "=>", "in", "//*", "+ +", "*"]
esc = ["\\\\", "\\n", "\\\n", "\\'", '\\"', "\\`", "\\u{1F600}", "\\x41", "\\0", "\\\r\n", "\\é", "\\/", "\\$"]
L["str1"] = ["'a'"][:0] + plain + ['"'] + esc
L["str2"] = plain + ["'"] + esc
# quotes, escapes and what could be taken for something else first (the exhaustive ones)
for k, other in (("str1", '"'), ("str2", "'")):
    first = [other, "\\\\", "\\'" if k == "str1" else '\\"', "/*", "//", "\\\n", "`", "${", "a", "}", " ", "é", "\\`"]
    L[k] = first + [x for x in L[k] if x not in first]
L["text"] = ["'", '"', "\\`", "\\\\", "\\$", "{", "}", "\n", "//", "/*", "a", "é", " ", "\\\n", "*/", "  ", "\r\n", "😀", "/", "\t", "\\'", "\\u{61}", "<", "$ ", "$$ ", "var x", ";", "=", "+ +", "\u2028"]
L["opd"] = ["x", '"}"', "'`'", "/[}`]/", "1", "/'/g", "x.y", "f()", '"\\""', "[1]", "é", "(a)", "/\\}/", "''", "'//'", "'/*'", "/`/", "/[/}]/i", ".5", "true", "/\\//"]
L["pre"] = ["!", "- ", "typeof ", "~", "+ ", "..."][:6]
L["op"] = ["+", "/ ", ",", "&&", "*", " in ", "-", "===", "<", "??", "%", "\n+\n", "?1:", "|", "=", " instanceof "]
L["suf"] = [".b", "[0]", "(1)", "?.c", "['}']", '["`"]', "/2", ".d()", "[/}/]"]
L["gap"] = [" ", "/* } */", "\n", "//`\n", "/*`*/", "/* ' */", "// }\n", "  ", "/*${*/", "//'\n", "/* // */", "/*é*/"]
L["key"] = ["a:", "'}':", "é:", "[x]:", '"`":', "1:"]
L["rx"] = ["a", "'", '"', "`", "\\/", "\\\\", "\\[", "(b)", "é", " ", "$", "^", ".", "}", "{2,3}", "\\]", "=", ";", "+?", "\\d", "|", "(?:c)", ",", "\\n", "\\u{61}", "😀", "(?<n>d)", "(?=e)", "-", "\\*", "${", "]", "<", "\t", "//"][:34]
L["cls"] = ["/", "a", "[", "'", '"', "`", "\\]", "\\/", "*", "^", "\\\\", "é", "-", "//", "/*", "(", "{", "}", " ", "\\d", "$", "😀"]
L["flags"] = ["", "g", "i", "gi", "m", "s", "u", "y", "dgimsuy", "v", "mg", "uy", "d"]
L["num"] = ["0", "7", "42", "1_000", "017", "08", "00", "9007199254740993", "18446744073709551617", "123456789012345678901234567890"]
L["radix"] = ["0xFF", "0XaBcDeF", "0b101", "0B0", "0o17", "0O7", "0x1F_FF", "0xFFFFFFFFFFFFFFFFF", "0xE", "0x1e5", "0b1n", "0xFFn"]
L["frac"] = [".0", ".5", ".", ".50", ".123456789012345678901", ".0_1"]
L["exp"] = ["", "e5", "E5", "e-7", "E+10", "e400", "e0", "e1_0"]
# contexts: [before, after], each a list of tokens; %nl as in JsGrammar
P = lambda *bs: [b.split() for b in bs]
L["before"] = P("x =", "f (", "x = [", "x = y +", "x = { k :", "f ( ...", "x = y ?", "return %nl", "switch ( x ) { case", "x = typeof", "x = y in", "x = y instanceof", "throw %nl", "do",
  "if ( x ) ; else", "x = y ,", "x = !", "x = y &&", ";", "{", "x = y <", "x = ~", "x = y %", "x = y *", "x = y |", "x = y ===", "x += ", "x = ( a =>", "if ( x ||", "x = y ? z :", "x -=", "while ( x ==", "x = y ^", "f ( a ,", "x >>= y &", "x = - ", "x = + ", "x = y - ", "x = y ?? ", "x = y != ", "x = y > ", "x = [ 1 ,", "for ( ;", "( ")
L["after"] = P(";", ") ;", "] ;", "+ z ;", "} ;", ", z ;", ": z ;", ". m ( ) ;", "[ 0 ] ;", "instanceof z ;", "in z ;", "? z : w ;", "} x ( ) ;", "- z ;", "* z ;", "=== z ;", "&& z ;", "< z ;", ") + z ;", "; y ( ) ;")
L["afterdiv"] = P("/ 2 ;", "/ 2 / g ;", "% z ;")
json.dump(L, open(os.path.join(D, "js_lits.json"), "w"), ensure_ascii=True, indent=0)
