# Generates html.json (the pieces of generated documents) and html_layout.json (their gaps).
import json, os
D = os.path.dirname(os.path.abspath(__file__))
L = {}
L["W"] = ["word", "two", "&amp;", "é", "日本", "a=\"b\"", "it's", "1", "x>", "->", "\u00a0", "a\u00a0b", "10\u2003%", "\"q\"", "&nbsp;", "w=5", "\u3000", "'", "{x:1}", "width=\"5\"", "😀", "\u00a0x", "type=\"text/css\"", "//", "--", "\u2028", "word" * 80, "日本語" * 30]
L["TO"] = ["<div", "<p", "<a", "<span", "<i", "<h1", "<ul", "<x-el", "<DIV", "<section", "<b", "<button", "<table", "<é", "<li", "<td", "<p2", "<previous".replace("previous", "article")]
L["TOI"] = ["<body", "<html", "<head", "<tbody"]
L["VO"] = ["<br", "<img", "<input", "<hr", "<meta", "<link"]
L["TC"] = ["</div>", "</p>", "</a>", "</span>", "</i>", "</h1>", "</ul>", "</x-el>", "</DIV>", "</section>", "</b>", "</table>", "</title>", "</div >", "</liste>"]
L["OT"] = ["</area>", "</base>", "<body>", "</body>", "</br>", "</col>", "</colgroup>", "</dd>", "</dt>", "<head>", "</head>", "</hr>", "<html>", "</html>", "</img>", "</input>", "</li>", "</link>", "</meta>", "</option>", "</param>", "<tbody>", "</tbody>", "</td>", "</tfoot>", "</th>", "</thead>", "</tr>", "</basefont>", "</isindex>"]
L["AN"] = ["class", "id", "href", "title", "style", "data-x", "aria-label", "onclick", "xlink:href", "disabled", "alt", "@click", ":key", "x", "CLASS", "data_y", "v-on:a.b", "type2", "averyverylongattributename", "data_" + "abcd" * 12]
L["ANB"] = ["disabled", "checked", "async", "data-x", "hidden", "width", "x1"]
L["WN"] = ["width", "height", "data-width", "max-height", "Width", "widths", "border-width", "line_height"]
V = ["a", "", "a b", "a  b", "x=y", "100", " a ", "/p/q?a=b&amp;c", "é", "5.5", "color: red;  width: 5px", "1 ", "a\nb", "\ta", "日 本", "a\u00a0 b", "1  2", "a  b  c", "x = y", "#", "type=text/css", "-", "text/javascript", "a\n\n  b", "{x: 1}", "😀 😀", "/", "a/", "=", "w  1", "\r\n", "a\t\tb", "lorem ipsum " * 12, "x" * 300, "a  averyverylongattributename=", "é" * 40]
L["DV"] = ['"%s"' % v for v in V] + ['"it\'s"', '"width=\'5\'"', '"a=\'b\'  c=\'d\'"', '"\'"', '"x width=\'5\' y"', '"say \'hi\'  x=\'1\'"']
L["SV"] = ["'%s'" % v for v in V] + ["'say \"hi\"'", "'w  width=\"5\"'", "'width=\"5\"'", "'\"'", "' height=\"1\" '", "'{\"a\":  1}'", "'a=\"b\"  c=\"d\"'", "'type=\"text/css\"'", "'x  type=\"text/javascript\" y'", "'x type=\"text/css\" y'"]
L["UV"] = ["a", "5", "a/b", "é", "x-y", "#frag", "100%", "a=b", "text/css", "/x/", "{x}"]
L["WV"] = ['"100"', '"5.5"', '"a_b"', '"-1"', '"100%"', '"1 2"', '""', "'7'", '"é"', '"."', '"auto"', "5", '"1e3"', '" 5"', '"5 "', '"100px"', '"+1"']
L["TY"] = ['"text/javascript"', "'text/javascript'", '"module"', '"text/css"', "'text/css'", "text/css", '"text/javascript;x"', '"TEXT/CSS"', '"text/template"', '"text/csss"', '" text/css"']
L["TN"] = ["type", "type", "type", "data-type", "TYPE", "types"]
L["TE"] = [">", ">", "/>"]
L["CCO"] = ["<!--[if lte IE 8]>", "<!--[if IE]>", "<!--[if !IE]>", "<!--[x]>"]
L["CCC"] = ["<![endif]-->", "[endif]-->", "-->"]
L["CW"] = ["<!--[x]-->", "<!--[-->", "<!--[if-IE]><p></p><![endif]-->"]
L["DT"] = ["<!DOCTYPE html>", "<!doctype html>"]
L["SC"] = ["f();", "\"x\"", "a>b;", "//c", "{x:1}", "é", "'", "width=\"1\"", "a=1", "/*c*/", "--", "-->"]
L["PRE"] = ["<pre", "<textarea", "<PRE", "<TextArea", "<Pre"]
L["PREC"] = ["</pre>", "</textarea>", "</PRE>"]
json.dump(L, open(os.path.join(D, "html.json"), "w"), ensure_ascii=False, indent=0)
A = []
def atom(s, k):
    A.append({"s": s, "k": k}); return len(A) - 1
ws = [atom(s, "ws") for s in [" ", "\n", "  ", "\t", "\r\n", "\n\n    ", " \t ", "\r", "\n\t", "\f", "\t\t", " \n", " " * 24, "\n" + "\t" * 40]]
bc = [atom(s, "bc") for s in ["<!-- c -->", "<!---->", "<!-- a\nb -->", "<!-- <div> -->", "<!-- a > b -->", "<!-- it's \" -->", "<!-- <body> -->", "<!-- <pre> -->", "<!-- é 日 -->",
                              "<!--x-->", "<!-- a [ b -->", "<!-- type=\"text/css\" -->", "<!-- </ -->", "<!-- < -->", "<!--\n-->", "<!-- -- -->", "<!--<p  class=\"a\"  >-->", "<!-- a -- > -->",
                              "<!--a--><!--b-->", "<!-- / -->", "<!--\r\n-->", "<!-- ] -->", "<!-- endif]-->", "<!--/[-->", "<!-- - -->", "<!-- <!- -->", "<!-- <textarea -->", "<!--! [x] -->", "<!--![x]-->", "<!--<![endif]-->", "<!--{x}-->", "<!--]-->", "<!--<!--[x]-->", "<!-- " + "long comment " * 30 + "-->"]]
lay = {"atoms": A, "kinds": {
    "txt": {"min": 0, "max": 3, "first": [], "atoms": ws + bc},
    "raw": {"min": 0, "max": 2, "first": [], "atoms": ws},
    "attr": {"min": 1, "max": 2, "first": [], "atoms": ws},
    "eq": {"min": 0, "max": 1, "first": [], "atoms": ws, "rare": 1},
    "tend": {"min": 0, "max": 2, "first": [], "atoms": ws, "rare": 1},
    "none": {"min": 0, "max": 0, "first": [], "atoms": []}}}
json.dump(lay, open(os.path.join(D, "html_layout.json"), "w"), ensure_ascii=False, indent=0)
