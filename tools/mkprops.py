#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": None}})

J = "src/json/"
p("C01", "JSON minification removes exactly the whitespace between tokens",
  "For every valid JSON text, minifying it in memory returns that text with every whitespace character between tokens removed and nothing else changed. "
  "Tokens keep their order, and every string, number and literal is byte for byte the original, whatever escapes, quotes, backslash runs, spaces or non-ASCII characters its strings contain.",
  ["inputs"], "all valid JSON texts, all layouts of whitespace between their tokens",
  "Three tests minify one small object each; none has a string ending in an escaped quote or backslash followed by more text.",
  [J+"json_minifier.rs", J+"string.rs", J+"mod.rs"],
  [("in-string / escape state machine", J+"json_minifier.rs is_whitespace_outside_string"), ("one-character look-ahead filter", J+"string.rs JsonMultiFilter::next")],
  ["json::minify(..).to_string()"], [("is_string", "inside a string literal", J+"json_minifier.rs"), ("escaped_quotation", "characters still covered by an escape", J+"json_minifier.rs")])
p("C02", "Streaming JSON minifier equals in-memory for every split of the input",
  "For every UTF-8 input, reading it through the streaming JSON minifier delivers exactly the bytes that minifying the same text in memory gives, followed by end of file. "
  "This holds however many bytes the source returns per read (including short reads and interrupted reads that must be retried), wherever multi-byte characters fall, and whatever sizes of buffer the caller reads into.",
  ["inputs", "schedules", "histories"], "all inputs x all source read schedules x all caller buffer-size sequences",
  "One test reads one small ASCII file with read_to_string; no test has a short read, an interrupted read, a multi-byte character or a chosen buffer size.",
  [J+"read/json_read.rs", J+"read/byte_to_char.rs", J+"read/internal_reader.rs", J+"read/internal_buffer.rs"],
  [("caller buffer fill and carry-over", J+"read/json_read.rs read/add_char_to_buffer"), ("refill until end of file", J+"read/internal_reader.rs next"), ("UTF-8 reassembly", J+"read/byte_to_char.rs next")],
  ["every return of Read::read on json::minify_from_read(source)", "every Read::read call made on the source"],
  [("item1", "look-ahead character", J+"read/json_read.rs"), ("item_iter", "bytes of the last kept character still to deliver", J+"read/json_read.rs"), ("buffer", "bytes fetched and not yet decoded", J+"read/internal_buffer.rs")])
p("C03", "Streaming JSON minifier reports source failures, never a short success",
  "If the source fails with an I/O error, or its bytes are not valid UTF-8, the caller of the streaming JSON minifier is returned an error before any end of file: the same error kind for an I/O error, invalid data for bad UTF-8. "
  "Everything delivered before the error is a prefix of the minified text of the part that was read, and reading never panics. "
  "If an I/O error happens once and the source then goes on, reading on after the error delivers the rest of the minified text, nothing lost or repeated.",
  ["inputs", "fault_sequences", "schedules"], "all inputs x failure positions and kinds x malformed byte sequences x read schedules",
  "No test has a failing source or malformed UTF-8.",
  [J+"read/json_read.rs", J+"read/byte_to_char.rs", J+"read/internal_reader.rs"],
  [("error conversion", J+"read/json_read.rs From<CharsError>"), ("UTF-8 width table and validation", J+"read/byte_to_char.rs"), ("read error propagation", J+"read/internal_reader.rs")],
  ["every return of Read::read on json::minify_from_read(source)"])
JS = ["src/js/token.rs", "src/js/utils.rs", "src/js/tools.rs"]
p("C04", "JS minification preserves the token sequence of the program",
  "For every JavaScript program whose statements are explicitly terminated (nothing depends on automatic semicolon insertion), the minified text has exactly the source's tokens in the source's order: none dropped, duplicated, altered, split in two or fused with its neighbour, whatever whitespace and ordinary comments stand between them. "
  "Words, numbers, operators such as + +, - - and a division followed by a regular expression, and the in/instanceof operators after any operand stay separated wherever joining them would change the tokens (a leading empty statement may go). Outside this statement: hashbang lines, HTML-like comments, \\u{...} in identifiers, and a regular expression directly after ), } or a word other than case, do, else, in, instanceof, return, throw, typeof.",
  ["inputs", "programs"], "all such programs over all keywords, operators, punctuators and literal forms, all layouts",
  "The tests compare a few dozen fixed snippets and one 2500-line file; adjacency, nesting and layout combine without bound.",
  JS, [("tokenizer", "src/js/token.rs tokenize/fill_other/handle_equal_sign/check_if_number"), ("whitespace and comment removal", "src/js/utils.rs clean_tokens"), ("separator insertion when printing", "src/js/token.rs tokens_writer!")],
  ["js::minify(..).to_string()"], [("v", "tokens so far", "src/js/token.rs tokenize"), ("start", "start of the current word", "src/js/token.rs tokenize")])
p("C05", "JS string, template, regex and number literals survive verbatim",
  "Every string, template and regular-expression literal and every numeric literal of a JavaScript program appears in the minified text exactly as written (only the order and repetition of a regex's flags may change). "
  "This holds whatever the literal contains (quotes, escapes, comment markers, slashes inside character classes, whitespace, braces, nested template interpolations, leading zeros, exponents or non-ASCII text), for a regular expression wherever it follows an operator, a spread, an opening bracket, a separator or one of case, do, else, in, instanceof, return, throw, typeof.",
  ["inputs"], "all literal contents in all expression positions",
  "Tests use fewer than thirty fixed literals.",
  JS, [("string scanner", "src/js/token.rs get_string"), ("template scanner with nesting", "src/js/token.rs get_backtick_string"), ("regex scanner", "src/js/token.rs get_regex"), ("number classification", "src/js/token.rs fill_other/check_if_number")],
  ["js::minify(..).to_string()"])
p("C06", "JS ordinary comments vanish alone; licence comments are kept verbatim",
  "Minified JavaScript contains no ordinary comment of the source, and removing a comment never removes or adds anything else, wherever it stands and however it ends (line comments ended by a line break or by the end of the input, block comments with stars, slashes, quotes or line breaks inside). "
  "Every licence comment /*! ... */ is kept exactly once, verbatim, in order and between the same tokens.",
  ["inputs"], "all comment shapes at all positions of all programs",
  "Tests contain about ten fixed comments, none at the end of the input without a line break.",
  JS, [("line comments", "src/js/token.rs get_line_comment"), ("block comments", "src/js/token.rs get_comment"), ("comment removal", "src/js/utils.rs clean_tokens")],
  ["js::minify(..).to_string()"])
p("C07", "JS output depends only on the tokens, and minifying is idempotent",
  "Two JavaScript sources with the same tokens and licence comments, differing only in the whitespace and ordinary comments between tokens, minify to the same text (whitespace being spaces, tabs and line breaks; private names and numbers directly before a dot aside). "
  "Minifying minified text changes nothing, and outside literals and licence comments that text never has two consecutive whitespace characters.",
  ["inputs", "programs"], "all programs, all pairs of layouts",
  "A statement about pairs of inputs; the tests compare single inputs with fixed results and never re-minify.",
  JS, [("whitespace and comment removal", "src/js/utils.rs clean_tokens"), ("separator insertion when printing", "src/js/token.rs tokens_writer!")],
  ["js::minify(..).to_string() on families of layouts of one program"])
p("C08", "No text crashes or hangs a minifier",
  "For every UTF-8 text, well formed or not, the JavaScript, CSS, JSON and HTML minifiers return (a result or an error) without panicking, overflowing the stack or looping. "
  "JavaScript minification returns an error only for template literals nested in interpolations deeper than the documented limit of 1000, and a text nested up to the limit is accepted.",
  ["inputs"], "all UTF-8 strings",
  "Tests sample a handful of malformed inputs; two earlier crashes were found only by fuzzing.",
  ["src/js/token.rs", "src/css/token.rs", "src/json/json_minifier.rs", "src/html.rs"],
  [("byte-offset slicing of the source", "src/js/token.rs, src/css/token.rs"), ("backtracking iterator", "src/js/token.rs MyPeekable"), ("nesting cap", "src/js/token.rs MAX_BACKTICK_NESTING")],
  ["js::minify, css::minify, json::minify, html::minify"])
CS = ["src/css/token.rs", "src/css/mod.rs"]
p("C09", "CSS selectors keep their compounds and combinators",
  "In every style rule at top level or inside conditional group rules (@media, @supports, @container, @layer), minification keeps each selector's simple selectors, combinators and commas, in order. "
  "Whitespace that is a descendant combinator stays whitespace, also next to *, [attr], pseudo-classes, pseudo-elements and closing parentheses; parts of one compound selector are never separated; >, +, ~ and commas stay what they are.",
  ["inputs"], "all selector lists over all simple selectors and combinators, all layouts, all admissible nestings",
  "Tests contain about twenty fixed selectors.",
  CS, [("selector context tracking", "src/css/token.rs tokenize is_in_block/is_in_media/is_in_attribute_selector"), ("selector classification", "src/css/token.rs fill_other"), ("space retention rules", "src/css/token.rs clean_tokens")],
  ["css::minify(..).to_string()"], [("is_in_block", "depth of open blocks", "src/css/token.rs"), ("is_in_media", "inside an at-rule", "src/css/token.rs")])
p("C10", "CSS declarations, values and at-rule preludes keep their components",
  "Every declaration and at-rule survives minification with its property name, value components and prelude components verbatim and in order, none dropped, duplicated, split or fused. "
  "Components that whitespace keeps apart stay apart (words, numbers, strings, !important, the keywords and, or, not before a parenthesis, and + or - inside calc, min, max, clamp and the other math functions, whatever the case of their names, and in the values of custom properties); function names stay attached to their parentheses; strings, unquoted url() contents and escapes are untouched.",
  ["inputs"], "all declarations, values, functions and at-rule preludes, all layouts",
  "Tests contain about fifteen fixed declarations and six at-rules.",
  CS, [("tokenizer", "src/css/token.rs tokenize"), ("calc tracking", "src/css/token.rs clean_tokens is_in_calc/paren"), ("space retention rules", "src/css/token.rs clean_tokens"), ("strings", "src/css/token.rs get_string")],
  ["css::minify(..).to_string()"])
p("C11", "CSS ordinary comments vanish alone; licence comments are kept in order",
  "Minified CSS contains no ordinary comment, and removing a comment never removes, merges or changes anything else, whatever the comment contains and wherever between components it stands. "
  "Every licence comment (/*! ... */ or /** ... */) is kept exactly once as /*!...*/ with its text verbatim, in order and between the same components.",
  ["inputs"], "all comment shapes at all positions between components",
  "Tests contain six fixed comments.",
  CS, [("comment scanner", "src/css/token.rs get_comment"), ("comment to space conversion", "src/css/token.rs clean_tokens")],
  ["css::minify(..).to_string()"])
p("C12", "CSS minification fails exactly on unclosed or unbalanced input",
  "CSS minification returns an error exactly when the text has a string or comment that is never closed, a closing brace without an open block, a closing bracket without an open bracket, or an opening bracket inside brackets; every other text is accepted. "
  "Strings, comments, unquoted url(...) contents (for comments only) and backslash escapes hide the characters inside them from this test.",
  ["inputs"], "all texts",
  "Two tests check one malformed text each.",
  CS, [("error returns", "src/css/token.rs tokenize"), ("string and comment scanners", "src/css/token.rs get_string/get_comment")],
  ["css::minify(..).is_ok()"])
p("C13", "CSS output does not depend on layout, and minifying is idempotent",
  "Two style sheets with the same components and licence comments, differing only in which whitespace characters, how many, and which ordinary comments next to whitespace separate the components (or in whether optional whitespace is there at all around braces, colons of the declarations of blocks, semicolons, commas and the combinators > + ~), minify to the same text. "
  "Minifying minified text changes nothing, and outside strings and comments it never has two consecutive whitespace characters.",
  ["inputs"], "all style sheets, all pairs of layouts",
  "A statement about pairs of inputs; the tests compare single inputs with fixed results.",
  CS, [("space pushes", "src/css/token.rs tokenize"), ("space retention rules", "src/css/token.rs clean_tokens")],
  ["css::minify(..).to_string() on families of layouts of one sheet"])
p("C14", "String aggregation into variables is undone by substituting them back",
  "Aggregating repeated string literals into variables changes nothing but string literals: replacing every created variable reference by the literal in its declaration, and every reference to an existing r_ variable that took a literal's place by that variable's literal, and dropping the created declarations, gives back the original token list. "
  "Each created variable is declared once, in one var statement before everything else (followed by the separation token when one is given), with a literal spelled as in the source, and template literals are never aggregated; the printed result has the same tokens.",
  ["inputs", "programs"], "all token lists: which strings repeat, how often, where, and which variables exist already",
  "Five fixed programs with two distinct repeated strings each.",
  ["src/js/tools.rs", "src/js/token.rs"], [("collection and replacement", "src/js/tools.rs aggregate_strings_inner"), ("existing variables", "src/js/tools.rs get_variables_name"), ("separator insertion when printing", "src/js/token.rs tokens_writer!")],
  ["token list returned by js::aggregate_strings*", "its to_string()"])
p("C15", "Aggregation names are fresh, distinct, and declared before they are used",
  "Every variable name created by string aggregation is a valid identifier, differs from every other created name and from every identifier token in the program, however many names are needed. "
  "A literal is replaced by a reference to an existing r_ variable only where that variable's var or let declaration with the same literal stands earlier in the program, and declarations themselves keep their literal unless the variable they name refers to an earlier one.",
  ["inputs", "programs"], "all programs and numbers of aggregated strings",
  "Two tests reserve one name; one test generates 20000 names but checks three substrings.",
  ["src/js/tools.rs", "src/js/utils.rs"], [("name generator", "src/js/utils.rs VariableNameGenerator"), ("names in use", "src/js/tools.rs get_variables_name")],
  ["token list returned by js::aggregate_strings*"])
p("C16", "Aggregation into an array: every index reads back the literal it replaced",
  "Aggregating strings into an array replaces a string literal only by array[i] where entry i of the array in the result has the same string value, and changes nothing else; literals rejected by the caller's filter, template literals, and the entries of an array that already exists stay as they are and keep their index. "
  "New entries are appended once each, a created array stands before everything else (followed by the separation token if one is given), a replaced literal always stands after the array's declaration, and nothing changes when an existing array's entries are not all plain values. The printed result has the same tokens. The array's name is used for nothing else in the program.",
  ["inputs", "programs"], "all token lists, array names, existing arrays, filters and separators",
  "Seven fixed programs.",
  ["src/js/tools.rs", "src/js/utils.rs"], [("collection, indices and insertion", "src/js/tools.rs aggregate_strings_into_array_inner"), ("existing array lookup", "src/js/utils.rs get_array")],
  ["token list returned by js::aggregate_strings_into_array*", "its to_string()"])
p("C17", "Token cleaning keeps every significant token and exactly what the filter keeps",
  "Cleaning a JavaScript token list removes only whitespace and comment tokens (and a leading empty statement), apart from single spaces left where neighbours must stay apart; every other token stays, once, in order. "
  "Cleaning with a filter removes, of whitespace, comment tokens and semicolons that lead the list, end it or precede a closing brace, only those the filter says may go, and keeps everything else in order.",
  ["inputs"], "all token lists and filters",
  "Three fixed snippets with two filters.",
  ["src/js/utils.rs"], [("clean_tokens", "src/js/utils.rs"), ("clean_tokens_except", "src/js/utils.rs")],
  ["token lists returned by js::clean_tokens, js::clean_tokens_except"])
p("C18", "Token replacement and variable lookup answer for exactly the right tokens",
  "Replacing tokens with a callback substitutes exactly the tokens for which the callback returns a replacement and leaves every other token and the order alone. "
  "Looking up a var or let declaration at its keyword returns the position of the declared name and, when it is initialised with a string, number, regular expression or identifier, the position of that initialiser; for a declared name without initialiser ended by a comma or semicolon it returns no value position, whatever whitespace and ordinary comments stand between these tokens.",
  ["inputs"], "all token lists and declarations, all layouts between the tokens",
  "Three fixed snippets.",
  ["src/js/utils.rs"], [("replace_tokens_with / replace_token_with", "src/js/utils.rs"), ("get_variable_name_and_value_positions", "src/js/utils.rs")],
  ["return values"])
p("C19", "Writing and displaying a minified result give the same bytes",
  "For JavaScript, CSS and JSON, writing a minified result into a writer produces exactly the bytes of its displayed string, however few bytes the writer accepts per call. "
  "If the writer fails, the write returns that error, and what the writer accepted is a prefix of the displayed string; formatting a result twice gives the same string.",
  ["inputs", "fault_sequences", "schedules"], "all inputs x all writer behaviours (short writes, interruptions, failure after any number of bytes)",
  "One JS helper writes a few fixed snippets into a Vec; no failing or short writer, no CSS or JSON.",
  ["src/js/token.rs", "src/js/tools.rs", "src/css/token.rs", "src/css/mod.rs", "src/json/string.rs", "src/json/mod.rs"],
  [("tokens_writer! used by both paths", "src/js/token.rs"), ("css Tokens::write / Display", "src/css/token.rs"), ("JsonMultiFilter::write / Display", "src/json/string.rs")],
  ["Minified::write(w)", "Minified::to_string()"])
p("C20", "The command line writes the minified text to the documented place only",
  "For every list of input files, each file of known type (given by -t, else by its extension in any letter case) is minified as that type into the documented output: next to the input with its last extension replaced by min.<type>, or the -o file (creating missing parent directories), or under the -o directory. "
  "The output is exactly the library's minified text, replacing any longer previous content, and no other existing file, inputs included, is created, changed or removed.",
  ["configurations", "inputs", "histories"], "all argument lists (types, outputs, file names, several files) and prior file-system states",
  "The command line has no tests.",
  ["src/cli.rs", "src/main.rs"], [("type detection", "src/cli.rs FileType"), ("output path", "src/cli.rs write_out_file"), ("argument parsing", "src/cli.rs Cli::init")],
  ["file system after running the binary"])
p("C21", "A file that cannot be minified harms no other file and no earlier output",
  "When an input is missing, unreadable as UTF-8, of unknown type, or rejected by its minifier, the command line reports it on standard error, leaves any existing output for it untouched, creates none, and still processes every other input as if the bad one were not there. "
  "It never panics.",
  ["configurations", "fault_sequences", "histories"], "all mixtures and orders of good and bad inputs, with and without earlier outputs",
  "The command line has no tests.",
  ["src/cli.rs"], [("error branches", "src/cli.rs write_out_file/get_all_data")],
  ["file system, standard error and exit status after running the binary"])
p("C22", "HTML minification keeps tags, text words and conditional comments in order",
  "For HTML without pre or textarea elements, the minified document has the source's text words and tags in the source's order, except that ordinary comments and the listed optional tags (such as </li>, </td>, <body>, </html>) are removed; comments whose content starts with [ stay. "
  "Pieces that whitespace separated stay separated by a single whitespace character (also where a removed comment or tag stood between), pieces that touched still touch, spaces that are displayed such as the non-breaking one stay, and the document's ends carry no whitespace.",
  ["inputs"], "all documents over tags, text, comments and layouts",
  "Two fixed documents.",
  ["src/html.rs"], [("comment removal", "src/html.rs remove_comments"), ("optional tags", "src/html.rs clean_unneeded_tags"), ("whitespace", "src/html.rs condense_whitespace")],
  ["html::minify(..)"])
p("C23", "HTML text is untouched in documents with pre or textarea",
  "If an HTML document contains a pre or textarea element (in any letter case), the text outside tags, including every space, tab and line break inside and outside those elements, is kept exactly, apart from removed ordinary comments, removed optional tags and whitespace at the document's two ends.",
  ["inputs"], "all documents containing pre or textarea",
  "No test contains pre or textarea.",
  ["src/html.rs"], [("guard on whitespace condensing", "src/html.rs condense_whitespace"), ("tag-only rewriting", "src/html.rs unquote_attributes")],
  ["html::minify(..)"])
p("C24", "HTML attributes keep their names and values",
  "Every attribute of every kept tag survives minification with its name and value, in order and on its own tag, except that type=\"text/javascript\" on script and type=\"text/css\" on style may be dropped (other types, other attributes and types of other tags stay). Attribute values contain no < or >. "
  "Only values of attributes named width or height (or something-width, something-height) made of letters, digits, - _ and . may lose their quotes, and only where whitespace or > follows; attributes stay separated from each other, and words inside values are kept (runs of whitespace inside a value may shrink to one space).",
  ["inputs"], "all tags with all attribute lists and layouts inside the tag",
  "One fixed document with eight attributes.",
  ["src/html.rs"], [("type removal", "src/html.rs condense"), ("attribute spacing and unquoting", "src/html.rs unquote_attributes")],
  ["html::minify(..)"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
