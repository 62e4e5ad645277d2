# Generates css_text.json: the units of CssText.
import json, os
D = os.path.dirname(os.path.abspath(__file__))
L = {
 "ch": ["{", "}", "[", "]", '"', "'", "/", "*", "\\", "a", "(", ")", " ", "url("],
 "few": ['"', "/", "*", "\\", "[", "}", "url(", ")"],
 "brace": ["{", "}"], "bracket": ["[", "]"],
 "ws": [" ", "\n", "\t", "\r\n", "  ", "\f"],
 "word": ["a", "color", ".b", "#c", "@media", "é", "日本", "😀", "1px", "-x", "url", "!important", "--v", "@import ", "50%", "\u0000", "<!--", "-->", "&", "?", "u", "ur", "calc"],
 "punct": [",", ">", ":", ";", "+", "=", "|", "~", "$", "^", "/ ", "* ", ") ", "::", "~=", "|=", "/ / ", "* = ", " ("],
 "str": ['""', "''", '"a"', "'}'", '"/*"', "'*/'", '"\\""', "'\\''", '"\\\\"', '"]"', "'['", '"{"', '"\'"', "'\"'", '"\n"', '"é"', "'\\\\\\''", '"\\\n"', '"url("'],
 "com": ["/**/", "/* */", "/* } */", "/* [ ] */", "/* \" */", "/* ' */", "/* \\*/", "/*/ */", "/***/", "/*!*/", "/** x */", "/*é*/", "/* /* */", "/****/", "/*!x**/", "/* url( */", "/*\n*/"],
 "esc": ["\\}", "\\{", "\\[", "\\]", "\\\"", "\\'", "\\\\", "\\a", "\\é", "\\ ", "\\(", "\\)", "\\/", "\\*", "\\\n"],
 "url": [" url(a/*b)", ":url(//x/*)", ",URL( /* )", ";Url(\\)/*)", " url(*/)", " url(/)", " url()", " url(a.b?c=/*&d#e)", "(url(data:,/*))"],
 "urlstr": [' url("/*")', " url( '}' )", ' url("a"/*"*/)', " url(\t'/*'/* ) */)", " url(\n\"\\\"/*\" )"],
 "ustr": ['"', "'", '"a', "'a\\'", '"}/* */', "'\\", '"\\"', '"a\n', "'\"\""],
 "ucom": ["/*", "/**", "/*/", "/* a *", "/* \"\" * /", "/*!x", "/** a", "/*\\*\\/", "/*é"],
}
json.dump(L, open(os.path.join(D, "css_text.json"), "w"), ensure_ascii=True, indent=0)
