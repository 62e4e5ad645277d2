# Generates soup.json: the alphabets of Soup.
import json, os
D = os.path.dirname(os.path.abspath(__file__))
js = list("\"'`/*\\${}[]()a1.\n =+-<>!&|:;,?r^~%@#") + ["é", "😀", "\u2028", "\r", "\u0000", "_"]
js_core = list("\"'`/*\\${}[a =\n1") + ["é"]
js_frag = js + ["/*", "*/", "//", "${", "`", "/*!", "/**", "*//", "'use strict'", "return", "let ", "var x=", "=>", "...", "?.", "1e5", "0x", "in ", "of ", "typeof", "/a/g", "/[/", "\\u{", "<!--", "-->", "#!", "===", ">>>=", "**", "instanceof ", "\\\n", "\\\\", "${`", "}`", "/[`]", "++", "--", "case ", "async ", "/=", "r_x=", "\ufeff", "\u00a0", "日本", "'\\", '"\\', "0n", "1_", ".5", "1.", "class{#a}", "a\u0301"]
css = list("\"'/*\\{}[]()a1.\n =+->:;,@#!%&|~$^") + ["é", "😀", "\r", "\u0000", "url(", "calc("]
css_core = list("\"'/*\\{}[]() a:;@") + ["é"]
css_frag = css + ["/*", "*/", "/*!", "/**", "url(", "calc(", "@media", "@font-face", "\\31 ", "::", "!important", "min(", "@", "@{", "#fff", ".a", "[a=", "*=", "~=", "|=", "$=", "^=", "<!--", "-->", "U+", "--x:", ":not(", "/***/", "日本", "@import", "'\\", '"\\', "\\\n", "( ", " )", "> ", " + ", "*|a", "100%", "-1px"]
json_ = list("\"\\/{}[],:1 \n\tatn'.-e") + ["é", "😀", "\u0000", "\u007f", "\u2028"]
html = list("<>/\"'=! \n-a\tpsbhte&;") + ["é", "İ", "ẞ", "<!--", "-->", "</", "<script", "</script>", "<style", "</style>", "<pre>", "</pre>", "<textarea>", "</textarea>", "/>", "type=\"", " type=\"text/css\"", "<br>", "<p>", "</p>", "</li>", "href=\"", "</", "<a ", "</b>", "<body>", "<html>", "<!--[if", "]>", "<![endif]", "//", "/*", "*/", "<input", "\r", "\u00a0", "\u2028", "\u0000", "K", "ſ", "<SCRIPT>", "<svg/>", "<meta charset=\"x\">", "''", "=\"\"", "https://a", "<img src=x>", "<link rel=\"x\">"]
html_core = ["<", ">", "/", "\"", "'", "=", " ", "\n", "a", "!", "-", "İ", "<script>", "</script>", "<pre>", "<!--", "-->"]
N = lambda *xs: [list(x) for x in xs]
L = {"js": js, "js_core": js_core, "js_frag": js_frag, "css": css, "css_core": css_core, "css_frag": css_frag, "json": json_, "html": html, "html_core": html_core,
 "js_nest": N(["`${", "a", "}`", 1], ["`a${b+", "`c`", "}d`", 1], ["`${'}'+/*}*/", "x", "}`", 1], ["`${{a:", "1", "}}`", 1], ["`${`${", "a", "}`}`", 2], ["(", "a", ")", 0], ["[", "a", "]", 0], ["{", "a", "}", 0], ["!", "a", "", 0], ["/*", "*/", "", 0], ["//", "\n", "\n", 0], ["\\", "a", "", 0], ["'a'+", "1", "", 0], ["a?", "b", ":c", 0], ["-", "a", "", 0], ["+ ", "a", "", 0], ["/[/]/.x(", "a", ")", 0], ["function f(){", "return", "}", 0], ["`", "a", "`", 0], ["\"", "a", "\"", 0], ["${", "a", "}", 0], ["`a`", "b", "`c`", 0], ["/", "a", "/", 0], ["\n", "a", "\n", 0], [" ", "a", " ", 0], [";", "a", ";", 0], ["é", "a", "é", 0], ["var a='b';", "c", "", 0]),
 "css_nest": N(["@media print{", "a{}", "}", 0], ["(", "a", ")", 0], [":not(", "a", ")", 0], ["calc(1px + ", "1px", ")", 0], ["{", "a", "}", 0], ["url(", "a", ")", 0], ["\\", "a", "", 0], ["/*", "*/", "", 0], ["/**/", "a", "/**/", 0], ["[a]", "b", "[c]", 0], ["\"a\"", "b", "", 0], ["*", "a", "/", 0], [" ", "a", " ", 0], ["a{b:c}", "d", "", 0], [",", "a", ",", 0], [":", "a", ":", 0], ["é", "a", "é", 0], ["@a", "{", "}", 0], ["\n", "a", "\n", 0]),
 "json_nest": N(["[", "1", "]", 0], ["{\"a\":", "1", "}", 0], ["\"", "a", "\"", 0], ["\\", "\"", "", 0], [" ", "1", " ", 0], ["é", "1", "é", 0], ["\"\\\\\",", "1", "", 0]),
 "html_nest": N(["<div>", "a", "</div>", 0], ["<", "a", ">", 0], ["<!--", "a", "-->", 0], ["<script>", "a", "</script>", 0], ["<pre>", "a", "</pre>", 0], [" ", "a", " ", 0], ["\n", "a", "\n", 0], ["<a b=\"c\">", "d", "</a>", 0], ["İ", "<pre>", "</pre>", 0], ["\"", "a", "\"", 0], ["<style>", "a{}", "</style>", 0], ["</p>", "a", "<p>", 0])}
for k in list(L):
    if not k.endswith("_nest"):
        L.setdefault(k + "_nest", [])
json.dump(L, open(os.path.join(D, "soup.json"), "w"), ensure_ascii=True, indent=0)
