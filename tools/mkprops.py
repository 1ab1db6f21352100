#!/usr/bin/env python3
"""Source of properties.jsonl: edit here, run, commit both."""
import json, os
TOK="src/tokenizer/slice.rs"; TMOD="src/tokenizer/mod.rs"; PM="src/parser/mod.rs"; PE="src/parser/expressions.rs"; PS="src/parser/statements.rs"
PC="src/parser/classes.rs"; PF="src/parser/functions.rs"; PX="src/parser/module.rs"; PD="src/parser/declarations.rs"; PFI="src/parser/file.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],mechanism=[dict(name=a,where=b) for a,b in mech])))

p("C01","Every input is decided: accepted or reported as rejected, without a fault",
  "For every UTF-8 source text (bracket nesting up to a few hundred levels), parsing ends by accepting or by reporting that the text is not acceptable. It never ends in an internal fault (out-of-bounds or mid-character slicing, arithmetic overflow, an internal 'cannot happen' assertion, stack or memory exhaustion) and never runs on without end. The number of tokens requested is bounded by a small linear function of the length of the source.",
  ["inputs"],"all UTF-8 texts with bracket nesting below a few hundred levels, well formed or hostile",
  "The 12 tests run well-formed ASCII snippets only; hostile, truncated, non-ASCII and numeric-extreme texts are infinitely many and none is tried.",
  [TOK,PM,PE,PS],[("read_next dispatch and the per-literal scanners","src/tokenizer/slice.rs"),("token loop and lookahead buffer","src/parser/mod.rs:read_token, ident_lookahead, pop")],
  [("position","byte offset/line/column of the next unread character","src/tokenizer/slice.rs:SliceTokenizer"),("tokens/index/count","two-slot lookahead buffer","src/parser/mod.rs:Parser")])
p("C02","Tokens tile the source: nothing skipped, duplicated or invented",
  "Whatever sequence of hints a caller gives, the ranges of successively returned tokens are in increasing order, lie within the source on character boundaries, never overlap, and leave only white space between them. Every token other than end-of-input covers at least one character, so reading always progresses. End-of-input is returned exactly when everything but white space has been consumed, has an empty range at the end of the text, and is returned again on every later request.",
  ["inputs","histories"],"all source texts x all sequences of hints given on successive reads",
  "Tests read a single token from the start of a text; no test reads a second token or checks any range.",
  [TOK,TMOD],[("position advance after each token","src/tokenizer/slice.rs:next_token, increment_position, eat_whitespace")],
  [("position","start of the unread remainder","src/tokenizer/slice.rs:SliceTokenizer")])
p("C03","Reported positions agree with the source text",
  "The start and end position reported with every token are exactly those of that place in the source: byte offset, line number (the first line is 1; LF, CR, CR LF, U+2028 and U+2029 each end one line), and column as the 0-based count of code points since the line began. This holds through every kind of white space, line terminator, comment and multi-line literal.",
  ["inputs","histories"],"all source texts, all tokens of each, all hint sequences",
  "No test looks at a position; line and column depend on everything read before, so only whole-text runs can check them.",
  [TOK,TMOD],[("line/column accounting","src/tokenizer/slice.rs:increment_position, eat_whitespace"),("documented meaning of Position","src/tokenizer/mod.rs:Position")],
  [("position.line/.column","accumulated line and column","src/tokenizer/slice.rs")])
p("C04","Punctuators, names and white space are split by the longest-match rule",
  "Outside literals and comments, at every place in a source the token returned is the longest one ECMAScript's lexical grammar for modules allows there: the longest punctuator, or the whole run of ASCII name characters as one name carrying exactly that text. All the white-space characters TAB, VT, FF, SP, NBSP and ZWNBSP separate tokens without producing one, and each line terminator (CR LF counting as one) is reported as one line-terminator token.",
  ["inputs"],"all texts over punctuation, ASCII names, white space and line terminators, in any adjacency",
  "Tests try each punctuator once followed by a blank and a single identifier; adjacency of punctuators, digits, names, end of input and non-ASCII white space is combinatorial.",
  [TOK],[("read_next punctuator decision tree","src/tokenizer/slice.rs:read_next"),("identifier scan","src/tokenizer/slice.rs:tok_ident")])
p("C05","Numeric literals have the right extent and value",
  "Every well-formed ECMAScript numeric literal (decimal with optional fraction and exponent, leading-dot and trailing-dot forms, hexadecimal, octal, binary, either letter case) is returned as one numeric token covering exactly its characters. Its value is the mathematical value: exact for integers below 2^53 in every base, and within a relative error of 1e-9 for all other values whose magnitude and partial results stay within double range; exponents of any length are handled, and with a nonzero mantissa of ordinary length one far outside that range gives infinity or zero, to within what a double can hold.",
  ["inputs"],"all numeric literals in any following context",
  "Tests try 19 literals, hexadecimal only with the digits 0-9; digits, lengths, exponents and end-of-input contexts are unbounded.",
  [TOK],[("number scanners","src/tokenizer/slice.rs:tok_zero_num, tok_num, tok_fractional, parse_int_literal, parse_decimal_digits, parse_exponent")])
p("C06","Strings, templates, regexes and comments end where they should, text intact",
  "Every well-formed string, template piece, regular expression and comment is returned as one token that ends at its first genuine terminator: escaped quotes, backquotes, `${` and slashes, line continuations, slashes inside regex classes, `$` or `*` runs and embedded quotes of other kinds do not end it. The token carries exactly the source text between its delimiters (escape sequences left as written), regexes also their flags, template pieces the right head/middle/tail/whole kind, and comments whether they are line or block comments.",
  ["inputs"],"all well-formed delimited literals and comments, any content, any following text",
  "Tests use two or three short bodies without escapes; escapes, multi-byte text, terminator look-alikes and following contexts are unbounded.",
  [TOK],[("delimiter scanners","src/tokenizer/slice.rs:tok_str, tok_template_head, tok_curly_close, tok_slash")])
p("C07","Malformed lexemes are refused, never returned as tokens",
  "A string, template, regular expression or block comment that is not terminated, a string or regular expression containing a raw CR or LF outside a legal line continuation, a string with a `\\x` or `\\u` escape that lacks its hexadecimal digits, and a character that can start no token are refused: no token is returned for them. A base prefix without a valid digit and an exponent marker without digits are never absorbed into a numeric token's text, and a digit that the base does not have is never taken as part of the number's value. A text containing such a lexeme where it would have to be read is rejected by the parser.",
  ["inputs"],"all truncations and corruptions of literals, in any context",
  "No test feeds a malformed lexeme.",
  [TOK],[("unterminated / newline checks","src/tokenizer/slice.rs:tok_str, tok_slash, tok_template_head, tok_curly_close, tok_zero_num, tok_ident, parse_exponent")])
p("C08","Hints decide only `/` and `}`; a token depends only on the text at its place",
  "The expression hint alone decides whether `/` (not starting a comment) is read as a regular expression or as division, and the template hint alone decides whether `}` continues a template or is a brace; no hint changes the reading of anything else, comments included. The token returned at a place in the source depends only on the hint and the text from that place onwards, not on what was read earlier or on text beyond the token's own terminator.",
  ["inputs","histories"],"all places in all texts x all 8 hint combinations x all earlier read histories",
  "Each test uses one fixed hint on a fresh tokenizer and never compares hints, histories or suffixes.",
  [TOK,TMOD],[("hint use","src/tokenizer/slice.rs:tok_slash, tok_curly_close"),("stateless read_next over the remaining slice","src/tokenizer/slice.rs:next_token")])
p("C09","Valid modules are accepted",
  "Every syntactically valid ECMAScript 2018 module is accepted, except where it uses what the parser does not implement: non-ASCII or escaped identifiers and Unicode space separators other than NBSP/ZWNBSP, for-await and async generators, object rest in binding patterns, shorthand defaults in destructuring assignment and in arrow parameters, trailing commas in the parameters of arrow functions, and defaulted or destructured setter parameters with a default.",
  ["programs"],"all valid modules of the supported subset: any nesting, length and mix of constructs, operators, literals, spacing and semicolon style",
  "Three tests parse 15 one-line statements; the language is infinite and interactions between constructs (hints, lookahead, flags) are where it breaks.",
  [PE,PS,PC,PF,PX,PD,PFI,PM],[("recursive-descent grammar","src/parser/*.rs"),("goal hints","src/parser/mod.rs:expect_expression, ident_lookahead")],
  [("flags/flags_stack","grammar context","src/parser/mod.rs:Parser"),("hint","next-token goal","src/parser/mod.rs:Parser")])
p("C10","Texts outside the grammar are rejected",
  "A text that cannot be derived from the ECMAScript 2018 module grammar is rejected, where derivation is judged on the cover grammars and without early-error rules (what may be assigned to, which names are reserved only in strict code, label and jump targets, what may stand to the left of an assignment or an arrow, function and class declarations where only statements may stand, and the like are not required to be checked). In particular unbalanced brackets, missing operands, operators, names, keywords or separators, misplaced or stray tokens, and truncated constructs are always rejected.",
  ["programs"],"all texts obtainable by any edit of any program, and all token sequences",
  "No test contains a single invalid program.",
  [PE,PS,PC,PF,PX,PD,PFI,PM],[("mandatory-element macro and end-of-input check","src/parser/utils.rs:eat_value, src/parser/file.rs:parse_module")])
p("C11","Each character is read under the goal its grammar position demands",
  "While parsing a program the parser directs the tokenizer so that every `/` is read as division or as the start of a regular expression, and every `}` as a closing brace or as a template continuation, exactly as the ECMAScript grammar demands at that place. The sequence of tokens the parser draws from the source of an accepted program is therefore the one sequence the specification assigns to that program.",
  ["programs"],"all supported programs mixing division, regular expressions, braces and (nested) templates in any context",
  "No parser test contains a slash or a template; the right goal depends on unbounded preceding context.",
  [PM,PE,PS,TOK],[("hint management","src/parser/mod.rs:expect_expression, push_flags(Flag::Template), read_token, ident_lookahead")],
  [("hint","goal for the next token","src/parser/mod.rs:Parser"),("expect_template on flags_stack","whether `}` continues a template","src/parser/mod.rs:GrammarFlags")])
p("C12","A verdict covers the whole text, in one pass, and is given at the first error",
  "Acceptance is only given after the entire source up to end-of-input has been read, each token exactly once, in order, never more than one token beyond what has been consumed. Rejection is decided by the text read so far: replacing whatever the parser had not yet read never turns a rejection into an acceptance, and an accepted text followed by a stray token is rejected. A rejection comes within one token of the first one that no module can continue with (a second `default` clause of a switch, and a for-head declaration that lacks its initializer, may be noticed later).",
  ["programs","histories"],"all texts; all tokenizer request histories of a parse; all continuations of a rejected prefix",
  "Tests never look at what is left unread, and `accepted` alone does not show that everything was parsed.",
  [PFI,PM],[("end-of-input requirement","src/parser/file.rs:parse_module"),("two-slot lookahead","src/parser/mod.rs:token_and_line, ident_lookahead")],
  [("tokens/index/count","lookahead ring","src/parser/mod.rs:Parser")])
p("C13","Automatic semicolon insertion and no-line-break rules follow the standard",
  "A required semicolon may be left out exactly before `}`, at end-of-input, where a line terminator (or a comment containing one) precedes a token that cannot continue the statement, and after the `)` closing a do-while; otherwise a missing semicolon causes rejection. No line break is allowed between `throw` and its operand, before a postfix `++`/`--`, before `=>`, or inside `async x =>`; after `return`, `break`, `continue` and `yield` a line break ends the statement or operand.",
  ["programs"],"all statement sequences x all placements of semicolons, line breaks and multi-line comments between tokens",
  "Every statement in the tests ends in an explicit semicolon; none depends on a line break.",
  [PM,PS,PE],[("semicolon insertion","src/parser/mod.rs:semicolon_inner, no_line_terminator"),("line flag on lookahead","src/parser/mod.rs:read_token, LookaheadResult")],
  [("LookaheadResult.line","line break before the token","src/parser/mod.rs")])
p("C14","Comments and white space never change the verdict",
  "Inserting, removing or replacing white space and single-line block comments between tokens (without joining two tokens), replacing line terminators by other line terminators, by line comments ending in one, or by block comments containing one, never changes whether a text is accepted nor the tokens the parser sees.",
  ["programs","inputs"],"all texts x all trivia-preserving re-spacings",
  "Tests use one fixed layout; no comment occurs in any parser test.",
  [PM,TOK],[("trivia skipping and line flag","src/parser/mod.rs:read_token"),("white space and comment scanning","src/tokenizer/slice.rs")])
p("C15","Contextual keywords and operators are scoped to their construct",
  "`yield` is an operator exactly inside generator bodies and parameters (never in ordinary functions nested in them, again after those end), `await` exactly inside async functions, async methods and async arrows (and the arrows nested in them do not inherit it), and neither is ever accepted as a name. The `in` operator is unavailable exactly in the unbracketed head expression or initializer of a `for` statement. Anonymous function and class declarations are allowed exactly directly after `export default`, and each of these contexts ends precisely with its construct, whatever is nested inside.",
  ["programs"],"all nestings of functions, methods, classes, arrows, templates, brackets and for-heads, with a context-dependent form at any depth",
  "No test contains a generator, an async form, a for statement or a nested function.",
  [PM,PF,PC,PS,PE,PX],[("flag push/pop guard","src/parser/mod.rs:ParserProxy, push_flags, pop_flags"),("reserved-name test","src/parser/mod.rs:is_binding_identifier")],
  [("flags_stack","saved contexts","src/parser/mod.rs:Parser")])
p("C16","Parsing is compositional",
  "If two texts are accepted, their concatenation with a separating line break and semicolon is accepted; if either part is accepted and the other is not decided by lexical spill-over or continued by an `else`, the concatenation is accepted only if both are. A statement list accepted at top level (without import, export or top-level-only forms) is accepted as the body of a block, function, method, arrow, loop, switch case or try block at any nesting depth, and any accepted expression is accepted parenthesised, as an array element, argument, object value, computed key, template substitution and initializer.",
  ["programs"],"all pairs of programs; all programs x all wrapping contexts, iterated",
  "The tests parse each statement once, in one place; independence from surroundings is a statement about all combinations.",
  [PFI,PS,PE,PM],[("statement list loop","src/parser/file.rs, src/parser/statements.rs:parse_block_statement"),("context save/restore","src/parser/mod.rs:ParserProxy")])
p("C17","The verdict is a pure function of the text",
  "Parsing the same text again, in the same or another thread, while other texts are being parsed concurrently or after other parses have been rejected part-way, gives the same verdict, the same token requests and the same tokens. A rejected parse leaves nothing behind that influences later parses.",
  ["schedules","histories","inputs"],"all interleavings of parses on several threads, all histories of earlier parses",
  "Tests parse each text once and never after a failure.",
  [PM,TOK,"src/lib.rs"],[("all state is owned by the parser value; nothing global","src/parser/mod.rs:Parser, src/tokenizer/slice.rs:SliceTokenizer")])
p("C18","The parser is generic over token sources",
  "The verdict depends only on the tokens delivered: any token source that delivers the same significant tokens under the same hints, with owned or borrowed text, with the escapes in strings and templates decoded or left as written, with or without explicit white-space tokens, with any comments and line terminators carrying the same line-break information, gets the same verdict and the same sequence of requests as the built-in source-text tokenizer.",
  ["programs","configurations"],"all programs x all conforming token sources",
  "Tests only ever use the built-in tokenizer over string slices.",
  [PM,TMOD,"src/lib.rs"],[("Tokenizer / IntoTokenizer traits","src/tokenizer/mod.rs"),("read_token","src/parser/mod.rs")])
p("C19","Work is linear in the length of the text",
  "The work done to parse a text grows in proportion to its length for texts that repeat or lengthen any one construct (long literals, comments, names, lists, chains, member accesses, statement sequences, unterminated tails), with no re-reading: doubling the text at most about doubles the machine instructions executed and the memory allocated.",
  ["inputs"],"all sizes of all repeating families of texts",
  "Tests use texts of a few bytes and measure nothing.",
  [TOK,PM],[("single forward scan per token","src/tokenizer/slice.rs"),("no backtracking, bounded lookahead","src/parser/mod.rs")])
p("C20","The command-line program reports the library's verdict on the file",
  "Run on a file name, the program ends with success exactly if the file can be read, is UTF-8 and its whole content is accepted by the parser, and with failure (nonzero status and a message on standard error) otherwise, including a missing argument or file. It never modifies the file, and its verdict does not depend on the file's name or size or on standard input.",
  ["inputs","configurations","fault_sequences"],"all file contents, sizes and unreadable-file conditions",
  "The binary's test executable contains no tests.",
  ["src/main.rs",PM],[("file reading and parse_root call","src/main.rs:main")])
p("C21","No memory error or undefined behaviour; token text is the caller's text",
  "No input makes parsing or tokenizing read or write outside the source text and its own live memory, execute undefined behaviour or race between threads. The text carried by every token is valid UTF-8 and, when borrowed, lies inside the source at the token's own range.",
  ["inputs","schedules"],"all source texts, valid or hostile, all hint sequences, concurrent parses",
  "Tests run without sanitizers on a handful of texts.",
  [TOK,PM],[("safe slicing of the source; Cow payloads borrowed from it","src/tokenizer/slice.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
