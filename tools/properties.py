#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "JSON minification removes exactly the insignificant whitespace",
  "For every valid JSON document, the text returned by the string API is the document's tokens in order with nothing between them. Strings keep every character (escapes, spaces, quotes, DEL, non-ASCII text) and numbers keep their spelling; all whitespace outside strings is gone.",
  ["inputs"], "every valid JSON document with any whitespace between its tokens",
  "The tests check three fixed documents; none has two escapes in one string, a string ending in a backslash, or text after one.",
  ["src/json/mod.rs", "src/json/string.rs", "src/json/json_minifier.rs"],
  [("keep_element and the in-string/escape state", "src/json/json_minifier.rs"), ("JsonMultiFilter", "src/json/string.rs")],
  ["json::minify(..).to_string()"],
  [("is_string / escaped_quotation", "whether the next character is inside a string, and escaped", "src/json/json_minifier.rs")])
p("C02", "The JSON Read adaptor delivers what the string API returns",
  "For every UTF-8 text, however the source splits its bytes over read calls (short reads, interrupted reads) and whatever buffer sizes the consumer reads with, the bytes delivered by the JSON Read adaptor are exactly the string API's output for that text. The end of the stream comes after the last byte and stays the end.",
  ["inputs", "histories"], "every text, every sequence of source read results and every sequence of consumer buffer sizes",
  "The one streaming test reads a small file with read_to_string: a single full read and one buffer. Chunk boundaries inside characters, strings and escapes are never hit.",
  ["src/json/read/json_read.rs", "src/json/read/byte_to_char.rs", "src/json/read/internal_reader.rs", "src/json/read/internal_buffer.rs"],
  [("JsonRead::read look-ahead and pending bytes", "src/json/read/json_read.rs"), ("UTF-8 decoding over buffer boundaries", "src/json/read/byte_to_char.rs"), ("refill", "src/json/read/internal_reader.rs")],
  ["json::minify_from_read(..) through std::io::Read"],
  [("item_iter", "bytes of a character that did not fit", "src/json/read/json_read.rs"), ("read_pos / data_size", "unread part of the source buffer", "src/json/read/internal_buffer.rs")])
p("C03", "A fault in a JSON stream is reported, never a silent truncation",
  "When the source fails, or its bytes are not valid UTF-8, a consumer of the JSON Read adaptor gets an error (the source's own error kind, or InvalidData for bad UTF-8) before any end of stream. What it received until then is a prefix of the minified text of the data before the fault, and reading on afterwards does not panic.",
  ["fault_sequences", "inputs"], "every text, every position and kind of source failure or UTF-8 damage, every chunking",
  "No test makes a source fail or feeds invalid UTF-8.",
  ["src/json/read/json_read.rs", "src/json/read/byte_to_char.rs", "src/json/read/internal_reader.rs"],
  [("CharsError and its conversion to io::Error", "src/json/read/json_read.rs"), ("width table and from_utf8 check", "src/json/read/byte_to_char.rs")],
  ["json::minify_from_read(..) through std::io::Read"])

p("C04", "CSS minification preserves the stylesheet's meaning",
  "For every well-formed stylesheet (style rules, nested or not, at-rules that are statements or have blocks of rules or declarations, comments anywhere whitespace may stand), the minified text parses to the same rules in the same order with the same selectors, at-rule preludes and declarations. That includes descendant combinators, the universal selector, pseudo-classes, attribute selectors, functions, strings, urls, escapes, !important and the spaces that + and - need inside math functions.",
  ["inputs"], "every well-formed stylesheet",
  "The tests compare about twenty fixed snippets with fixed outputs; combinations of selector parts, whitespace and comments grow without bound.",
  ["src/css/token.rs", "src/css/mod.rs"],
  [("tokenize: selector/value context, attribute selectors, strings, escapes", "src/css/token.rs"), ("clean_tokens: which spaces may go", "src/css/token.rs")],
  ["css::minify(..).to_string()"],
  [("is_in_block / is_in_media / is_in_attribute_selector", "selector or declaration context", "src/css/token.rs"), ("is_in_calc / paren", "inside a math function", "src/css/token.rs")])
p("C05", "CSS comments go, licence comments stay, redundant whitespace goes",
  "No ordinary comment survives CSS minification, while every licence comment (one that starts with /*! or /**) stands between rules in the output with its text unchanged and in order, as /*! ... */. Outside strings and licence comments the output has no tab, no line break except one right after a licence comment, no two spaces in a row, and no space next to a brace, semicolon or comma, or at its start; whitespace that ends a hexadecimal escape is part of the escape.",
  ["inputs"], "every well-formed stylesheet, with comments and whitespace anywhere they may stand",
  "Comments are tested in a handful of positions only.",
  ["src/css/token.rs"],
  [("get_comment", "src/css/token.rs"), ("clean_tokens", "src/css/token.rs")],
  ["css::minify(..).to_string()"])
p("C06", "CSS minification accepts well-formed input and rejects broken input",
  "css::minify returns Ok for every well-formed stylesheet. It returns an error, and does not panic, for a stylesheet whose last string or comment is never closed, that closes more braces or more square brackets than it opened, or that nests square brackets (all outside strings, comments, escapes and unquoted urls).",
  ["inputs"], "every well-formed stylesheet, and every one damaged in one of the listed ways",
  "Each error has at most one test on one short input.",
  ["src/css/token.rs"], [("error returns of tokenize", "src/css/token.rs")], ["css::minify(..) result"])

p("C07", "JS minification preserves the syntax tree",
  "For every valid JavaScript program that ends its statements with explicit semicolons (so that no line break is significant), the minified text parses to the same syntax tree: same identifiers, operators, literals with their exact values, and statements. Regular expression literals are covered where the token before is an operator other than ++ and --, punctuation other than a closing bracket or brace, or one of return, typeof, case, in, instanceof, do, else, new, throw, default.",
  ["inputs"], "every program of ECMAScript 2023 with explicit semicolons, in any layout, with comments anywhere they may stand",
  "The tests compare fixed snippets and one library file with recorded output; no test checks that the output still parses, let alone to the same tree.",
  ["src/js/token.rs", "src/js/utils.rs", "src/js/tools.rs"],
  [("tokenize: strings, templates, regular expressions, numbers, comments", "src/js/token.rs"), ("tokens_writer: spaces the output needs", "src/js/token.rs"), ("clean_tokens", "src/js/utils.rs")],
  ["js::minify(..).to_string()"],
  [("previous useful token", "decides between a regular expression and a division", "src/js/token.rs")])
p("C08", "JS comments and layout vanish, licence comments stay",
  "JS minification drops every comment except licence comments (/*! ... */), which stay in order with their text unchanged. Two sources that differ only in the whitespace, line breaks and ordinary comments between their tokens minify to the same text, and the output is never longer than the input.",
  ["inputs"], "every program as in C07 (comments inside template literals are part of the literal), and every pair of layouts of it",
  "The tests never compare two layouts of one program.",
  ["src/js/token.rs", "src/js/utils.rs"],
  [("get_comment / get_line_comment", "src/js/token.rs"), ("clean_tokens", "src/js/utils.rs")],
  ["js::minify(..).to_string()"])
p("C09", "Aggregating strings into variables preserves the program",
  "Aggregating the string literals of a program into variables gives a program that differs only in that it starts (after its directives) with a declaration of new variables and some string literals are replaced by one of those variables (or by an existing top-level r_ variable that an earlier statement certain to run declared with that very string, and that is bound to or assigned nothing else anywhere): putting the values back gives the original program. The new names are used nowhere in the original program, each stands for one value, and a string that occurs once is left alone.",
  ["inputs", "configurations"], "every program of the C07 domain whose strings (property keys aside) stand in expression position, with and without a separation token, cleaned before or after",
  "The tests compare four fixed inputs with fixed outputs.",
  ["src/js/tools.rs", "src/js/utils.rs"],
  [("aggregate_strings_inner", "src/js/tools.rs"), ("VariableNameGenerator", "src/js/utils.rs"), ("get_variables_name", "src/js/tools.rs")],
  ["js::aggregate_strings, js::aggregate_strings_with_separation"])
p("C10", "Aggregating strings into an array preserves the program",
  "Aggregating the string literals of a program into an array gives a program in which every replaced literal is an index into that array whose element has exactly the literal's value; nothing else changes. The array is declared at the start (after the directives), or is the existing array literal of that name, extended at its end and only used after it in its block; a string the filter refuses is never replaced, and no array is made when nothing is replaced.",
  ["inputs", "configurations"], "every program of the C07 domain whose strings (property keys aside) stand in expression position, every array name not otherwise used, existing arrays with elements of any kind, every filter, with and without separation",
  "The tests compare a few fixed inputs; existing arrays, quotes and filters appear in one combination each.",
  ["src/js/tools.rs", "src/js/utils.rs"],
  [("aggregate_strings_into_array_inner", "src/js/tools.rs"), ("get_array", "src/js/utils.rs")],
  ["js::aggregate_strings_into_array and its _filter / _with_separation variants"])
p("C11", "Selective cleaning removes only what it may",
  "Cleaning a JS token list keeps, in order and unchanged, every token that is not a comment, whitespace or a semicolon (at the start or end of the list, or before a closing brace); with the except variants it also keeps every token for which the callback answers false, and removes every comment and whitespace token for which it answers true, save a single space two neighbours need to stay apart. The per-token predicates give the answer these rules imply for one token and its successor.",
  ["inputs", "programs"], "every token list obtained from a source text and every callback",
  "The tests use one or two callbacks on one source each.",
  ["src/js/utils.rs"],
  [("clean_tokens, clean_tokens_except, clean_token, clean_token_except", "src/js/utils.rs")],
  ["the returned token list"])
p("C12", "Token replacement and variable lookup follow their documentation",
  "Replacing tokens applies the callback to every token once and in place: a token becomes what the callback returns, or stays as it is, and the list keeps its length and order. Variable lookup at a let or var keyword of a declaration, or at the name of any variable of the declaration, gives the position of the (first) declared name, and the position of its value exactly when there is an initialiser that starts with a string, name, regular expression or number; whitespace, comments and licences between them don't matter. At any token that is neither let or var nor a name that follows let, var or a comma, it gives nothing.",
  ["inputs", "programs"], "every token list, every replacement callback, every position",
  "Three fixed sources are tested.",
  ["src/js/utils.rs"],
  [("replace_tokens_with, replace_token_with", "src/js/utils.rs"), ("get_variable_name_and_value_positions", "src/js/utils.rs")],
  ["the returned token list and positions"])

p("C13", "HTML minification preserves elements, attributes and text",
  "For every document, the minified HTML has the same start tags in order with the same attributes and values (but for the type of a script that is text/javascript and of a style that is text/css) and the same text up to collapsing of whitespace runs into one space, where none appears between two characters that had none between them and none disappears between two words. The characters of attribute values and non-breaking spaces are untouched. Only end tags that HTML lets authors omit, attribute-less html, head, body and tbody start tags, and comments may be missing. Without pre and textarea no whitespace run remains in text or between attributes.",
  ["inputs"], "every document of elements, attributes, text, comments and script/style content without // comments, where every quote and raw text element is closed and every < that is no tag or comment is followed by neither a letter nor / ! ?",
  "Two fixed documents are tested.",
  ["src/html.rs"],
  [("condense, clean_unneeded_tags, condense_whitespace, remove_comments, unquote_attributes", "src/html.rs")],
  ["html::minify(..)"])
p("C14", "HTML pre and textarea text and conditional comments survive",
  "A document that contains a pre or textarea element keeps the text of all its elements character for character apart from leading and trailing whitespace of the document and removed comments. Conditional comments (<!--[..]>..<![endif]-->, and those that other browsers read, ending in <!--<![endif]-->) stay, with their condition and content, and every other comment is gone.",
  ["inputs"], "every document of the C13 domain with pre or textarea elements or conditional comments",
  "One fixed document has a conditional comment and none has pre or textarea.",
  ["src/html.rs"], [("condense_whitespace's pre/textarea test", "src/html.rs"), ("remove_comments", "src/html.rs")], ["html::minify(..)"])

p("C15", "No input makes the library panic, overflow the stack or hang",
  "Every entry point (JSON, CSS, HTML and JS minifiers, the JS tokenizer, aggregation, cleaning and lookup functions) returns a value or an error for every UTF-8 string, however malformed, truncated, deeply nested or long. None panics, aborts, overflows the stack or loops for ever.",
  ["inputs"], "every UTF-8 string",
  "The tests cover a deeply nested template and an unclosed comment; the space of malformed inputs is open.",
  ["src/js/token.rs", "src/js/utils.rs", "src/js/tools.rs", "src/css/token.rs", "src/html.rs", "src/json/json_minifier.rs"],
  [("MAX_BACKTICK_NESTING", "src/js/token.rs"), ("slicing by char_indices positions", "src/js/token.rs, src/css/token.rs")],
  ["every public function"])
p("C16", "Minifying minified output changes nothing",
  "For every well-formed input of the JSON, CSS, JS and HTML domains above, minifying the minified text again returns it unchanged.",
  ["inputs"], "every well-formed document of the C01, C04, C07, C13 and C14 domains (no attribute twice in a tag)",
  "No test minifies twice.",
  ["src/js/token.rs", "src/js/utils.rs", "src/css/token.rs", "src/json/json_minifier.rs"],
  [("the writers' spaces against the tokenizers", "src/js/token.rs, src/css/token.rs")], ["minify(minify(x))"])
p("C17", "write() emits what to_string() returns and reports writer failures",
  "For every input of the JSON, CSS and JS minifiers, writing the result into a writer emits byte for byte what to_string returns, whatever number of bytes the writer accepts per call. When the writer fails, write returns that failure and what was written before is a prefix of the full text.",
  ["inputs", "fault_sequences"], "every input, every writer behaviour (short writes, interrupted writes, failure at any byte)",
  "No test calls write.",
  ["src/json/string.rs", "src/css/token.rs", "src/js/token.rs", "src/js/tools.rs", "src/css/mod.rs"],
  [("Tokens::write", "src/js/token.rs, src/css/token.rs"), ("JsonMultiFilter::write", "src/json/string.rs")], ["Minified::write against Minified::to_string"])
p("C18", "Output is a function of the input",
  "The same input and options always give the same output, in one call or the next, in one process or another, on one thread or several: minifiers, string aggregation into variables and into arrays.",
  ["inputs", "histories"], "every input and every number of repetitions",
  "Each test runs once on few strings; an order that depends on hashing shows only over repetitions and with several candidates.",
  ["src/js/tools.rs"], [("sorting of the hash map contents", "src/js/tools.rs")], ["repeated calls, and calls in separate processes"])

p("C19", "The command line tool writes the library's output where it says",
  "For every readable file with a css, js or json extension (in any case) or any file with --type, the tool writes exactly the library's output: to FILE with its extension replaced by min.EXT, to the -o file, or, where -o is a directory, below it at FILE's path without its root and parent (..) components and with its extension replaced, creating missing parent directories. Several files are all processed in order, the tool then exits with status 0, and inputs are never changed unless one is itself the output.",
  ["inputs", "configurations"], "every set of files, names, extensions, contents, types and output options",
  "The command line tool has no tests.",
  ["src/cli.rs", "src/main.rs"], [("write_out_file", "src/cli.rs"), ("FileType::from", "src/cli.rs")], ["files in a scratch directory after running the binary"])
p("C20", "A file the command line tool cannot process harms nothing",
  "When one input is missing, unreadable, a directory, not UTF-8, of unknown type or not minifiable, or its output cannot be created or opened, the tool reports it on standard error (naming the input or the output), does not create, empty or change any file for it, and still processes the other inputs as if it had not been given.",
  ["fault_sequences", "inputs"], "every mix of good and bad inputs in every order, with existing outputs",
  "The command line tool has no tests.",
  ["src/cli.rs"], [("get_all_data, write_out_file", "src/cli.rs")], ["files in a scratch directory and standard error after running the binary"])

p("C21", "Tokenizing a JS program accounts for all of it",
  "For every valid JavaScript program of the C07 domain, js::simple_minify's tokens printed in order (comments with their delimiters) are the source from its first to its last character, but for carriage returns, the order of a regular expression's flags and the line break that ends a line comment. Every string and template literal, regular expression and comment of the program is one token of that kind with exactly that text, nothing else is such a token, and no word is cut in two.",
  ["inputs", "programs"], "every program of the C07 domain with ordinary and licence comments anywhere",
  "The tests list the tokens of a few dozen fixed lines.",
  ["src/js/token.rs"],
  [("tokenize", "src/js/token.rs"), ("get_string, get_backtick_string, get_regex, get_comment", "src/js/token.rs")], ["js::simple_minify(..) and the printed form of its tokens"])
p("C22", "The variants of the JS token functions agree",
  "For every text, js::minify is js::simple_minify followed by js::clean_tokens. For every token list of a text, the with_separation variants of the aggregations give what the plain ones give plus the separation token right after the created declaration; the filter variants give what the plain ones give when the filter accepts every string, and change nothing when it refuses every string. Tokens::apply(f) is f, and replacing tokens with a callback that returns nothing changes nothing.",
  ["inputs", "programs", "configurations"], "every text, token list, array name, separation token and filter",
  "The tests use one or two texts per variant and never compare the variants.",
  ["src/js/tools.rs", "src/js/utils.rs", "src/js/token.rs"],
  [("aggregate_strings_inner, aggregate_strings_into_array_inner and their callers", "src/js/tools.rs"), ("minify, simple_minify", "src/js/tools.rs")],
  ["the returned token lists"])
p("C23", "JS tokens describe themselves correctly",
  "Every JS token is of exactly one kind and its methods agree with it: each is_ predicate holds for its own kind only, get_ gives the payload for its own kind only, eq_ compares with it, is_white_character holds for space, tab and line break only, is_assign for the operations that end with = only, and the printed form is the kind's text. A keyword, reserved character, operation or condition read from its text prints as that text; every keyword and reserved character is read as one, and outside property names no keyword of the source becomes a plain name.",
  ["inputs", "programs"], "every token of every text, every token that can be constructed, every character and word",
  "No test calls the predicates on more than a few tokens.",
  ["src/js/token.rs"],
  [("Token::is_*, get_*, eq_*; Display and TryFrom of Keyword, ReservedChar, Operation, Condition", "src/js/token.rs")],
  ["the methods of js::Token, js::Operation, and the TryFrom and Display implementations"])
p("C24", "Aggregating strings does what it is for",
  "A string literal that stands more than once in a program as a value and has at least 50 characters, or stands there at least 20 times and is longer than what replaces it (r_aa, or an access to the array), is written only once after aggregating the strings into variables or into an array, in the declaration that is added at the start, and where all of them have at least 50 characters the aggregated and cleaned program is shorter than the cleaned program.",
  ["inputs", "programs", "configurations"], "every program whose strings to aggregate stand in value position, array names of up to 8 characters, cleaned before or after",
  "The tests use a handful of fixed programs with the same two strings.",
  ["src/js/tools.rs"],
  [("aggregate_strings_inner, aggregate_strings_into_array_inner", "src/js/tools.rs")],
  ["the printed token list"])
p("C25", "Minified text is not longer than its source",
  "For every text that is minified without an error (for JS, every valid program), the output has at most as many bytes as the source, but for the line break after each licence comment (CSS, JS) and the space after the name of an at-rule (CSS).",
  ["inputs"], "every JSON, CSS and HTML text that is accepted, every JS program of the C07 domain",
  "The tests compare lengths of no output.",
  ["src/css/token.rs", "src/js/token.rs", "src/json/mod.rs", "src/html.rs"],
  [("Display of the tokens", "src/css/token.rs"), ("clean_tokens", "src/js/utils.rs"), ("minify", "src/html.rs")],
  ["the text returned by json::minify, css::minify, js::minify and html::minify"])
p("C26", "The JSON stream adaptor and write() need bounded memory and little read-ahead",
  "However long a JSON text is, reading it through json::minify_from_read (whatever the sizes of the source's reads and of the consumer's buffers), and writing it with json::minify(..).write, needs an amount of memory that doesn't grow with the text, and delivers the bytes of the string API; the adaptor has never read more than a bounded amount of the source beyond what it needs for what it delivered, so a source without an end can be consumed up to any point.",
  ["inputs", "stream segmentation"], "JSON documents and fragments repeated to 0.3-1 MB or for ever; any sequence of read sizes, interruptions and buffer sizes",
  "The tests read one file of 60 bytes: a reader that collects its whole source first passes all of them.",
  ["src/json/read/json_read.rs", "src/json/read/internal_reader.rs", "src/json/read/internal_buffer.rs", "src/json/string.rs", "src/json/mod.rs"],
  [("JsonRead", "src/json/read/json_read.rs"), ("InternalReader", "src/json/read/internal_reader.rs"), ("JsonMultiFilter::write", "src/json/string.rs")],
  ["peak of the memory allocated by the calling thread during the call", "bytes taken from the source against bytes delivered", "the bytes delivered"])
p("C27", "Time and memory grow in proportion to the text",
  "For every entry point (JSON string and reader, CSS, JS, HTML, token list, cleaning, replacing, aggregating into variables or an array), a text that repeats something four times as often takes about four times as much time and memory: no repetition of anything, well-formed or not, makes minifying quadratic or worse, so that a text of some hundred kilobytes is always done in well under a second.",
  ["inputs", "sizes"], "texts of 400 KB made of any 1 to 5 fragments or any well-formed text of the language, over and over (at times with a number that counts up), with something before and after",
  "The tests run on texts of some hundred bytes, on which a quadratic algorithm is as fast as a linear one.",
  ["src/js/token.rs", "src/js/tools.rs", "src/js/utils.rs", "src/css/token.rs", "src/html.rs", "src/json/json_minifier.rs"],
  [("tokenize", "src/js/token.rs"), ("aggregate_strings_into_array_inner, get_variables_name", "src/js/tools.rs"), ("tokenize", "src/css/token.rs"), ("replace_tags", "src/html.rs")],
  ["CPU time and peak of allocated memory for a text and for one of a quarter of its size"])
p("C28", "What a piece is minified to does not depend on what stands around it",
  "Two complete pieces of a language (JSON texts, CSS rules, JS statements, HTML elements without pre and textarea) one behind the other, with a neutral piece between them, are minified to what they are minified to each for itself, one behind the other: nothing that one piece contains changes how a later or an earlier one is minified, nor makes it refused.",
  ["inputs", "programs"], "every pair of well-formed texts of the C01, C04, C07 and C13 domains",
  "The tests minify single short texts, in which nothing comes before or after.",
  ["src/css/token.rs", "src/js/token.rs", "src/js/utils.rs", "src/json/json_minifier.rs", "src/html.rs"],
  [("tokenize, clean_tokens", "src/css/token.rs"), ("tokenize", "src/js/token.rs"), ("clean_tokens", "src/js/utils.rs"), ("keep_element", "src/json/json_minifier.rs"), ("minify", "src/html.rs")],
  ["the text returned by json::minify, css::minify, js::minify and html::minify"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
