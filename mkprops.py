# Regenerates properties.jsonl (kept as code so that statements are easy to review).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

G="src/parser/parse.y"; B="src/builder.rs"
p("C01","Every construct restores the nested parsing state it changed",
 "After any complete construct of an accepted program (method, class, module, block, lambda, loop condition, argument list, bracketed group, pattern, string interpolation) the nested state that governs the following text - visible local-variable scopes, do/brace binding of loops and commands, bracket and brace depth, numbered-parameter scope, current-parameter tracking, pattern scopes, the in-method/class/block/lambda/keyword-argument context and the pending string literal - is exactly what it was before the construct. At the end of every accepted program all of it is empty again, and none of it is ever popped below its start.",
 ["inputs","programs"],"all accepted programs, all nestings of all constructs",
 "The fixtures nest a handful of constructs to depth one or two; residue only shows in text that follows a rarely combined construct.",
 [G,"src/stack_state.rs","src/context.rs","src/static_environment.rs","src/max_numparam_stack.rs","src/current_arg_stack.rs","src/variables_stack.rs","src/lexer/main.rs"],
 [("grammar actions that push/pop and save/restore","src/parser/parse.y (mid-rule and final actions)"),("bracket tokens adjust the lexer stacks","src/lexer/main.rs")])
p("C02","Grammar rules always receive the kind of value they expect",
 "No source text can make the parser abort because one grammar rule hands another a value of a different kind than it expects, a value that was already consumed, or no value at all. This holds for every rule and every way each of its parts can be derived.",
 ["inputs","programs"],"all inputs; all rule / alternative combinations of the grammar",
 "A mismatch panics only when the particular alternative is reduced inside the particular rule; fixtures exercise a small part of the 770 rules.",
 [G,"src/parse_value.rs"],[("typed extraction of semantic values","src/parse_value.rs"),("grammar actions","src/parser/parse.y")])
p("C03","Whatever the parser rejects is reported as an error",
 "Whenever parsing gives up on a construct (the statement is abandoned and replaced by error recovery, or no tree is returned) at least one error-level diagnostic for it is present in the result; a rejection is never silent and never backed by a warning only.",
 ["inputs","programs"],"all inputs, all rejection paths of all grammar rules and semantic checks",
 "Each of the ~60 rejection paths needs its own malformed program; a path that returns failure without (or with a downgraded) diagnostic produces a silently wrong tree only there.",
 [G,B,"src/error/diagnostic.rs"],[("rejections are reported before failing","src/builder.rs, src/parser/parse.y actions"),("syntax errors","report_syntax_error in src/parser/parse.y")])
p("C04","Input is read to its end unless an error says otherwise",
 "The token stream ends only at the real end of the text, at a NUL, ^D or ^Z byte, at a __END__ line, or after an error-level diagnostic was reported for the place where reading stopped. No other byte sequence, encoding comment or malformed literal makes the rest of the file disappear silently.",
 ["inputs"],"all byte sequences",
 "Silent truncation needs an unusual byte sequence (for instance a non-UTF-8 comment); tests only feed well-formed snippets.",
 ["src/lexer/main.rs","src/lexer/parse_magic_comment.rs","src/source/buffer.rs","src/lexer/parse_heredoc.rs"],
 [("places that produce the end-of-input token","src/lexer/main.rs, src/lexer/parse_heredoc.rs")])
p("C05","Input cut off at any byte still ends the token being read",
 "For every input, including one that stops in the middle of any token, literal, heredoc, escape, comment or number, reading reaches the end of input and stops: no scanning loop keeps asking for more bytes after the end, and the end marker is never stored as if it were a byte of a token.",
 ["inputs"],"all inputs and all truncations of them",
 "Each scanning loop needs its own truncated input; a missing end-of-input check is an endless loop or an abort only for that truncation.",
 ["src/lexer","src/source/buffer.rs"],[("scanning loops over the byte source","src/lexer/*.rs"),("token buffer refuses the end marker","src/lexer/tokadd.rs, src/token_buf.rs")])
p("C06","Shared parser state is never accessed re-entrantly",
 "No input can make the parser abort because a shared piece of its state (scopes, context, diagnostics, pattern and parameter stacks) is modified while another access to the same piece is still in progress.",
 ["inputs","histories"],"all call paths from the public API",
 "A conflicting access panics only on the one path on which both accesses overlap.",
 ["src/static_environment.rs","src/variables_stack.rs","src/context.rs","src/error/diagnostic.rs","src/max_numparam_stack.rs","src/current_arg_stack.rs"],
 [("interior-mutable shared handles","src/static_environment.rs and siblings")])
p("C07","Parsing is a pure, deterministic function of bytes and options",
 "The result of a parse (tree, diagnostics, comments, tokens) depends only on the input bytes and the options: parsing reads no file, environment, clock, randomness, address, thread identity or state left by another parse, never iterates a randomly ordered collection, writes nothing to standard output or error and starts no thread or process.",
 ["inputs","configurations","schedules","histories"],"all inputs, all processes, threads and sequences of parses",
 "Tests run each snippet once in one process; order-dependence or global state shows only across runs.",
 ["src"],[("everything reachable from the public parse entry points","src/parser/parse.y epilogue, src/lexer, src/builder.rs")])
p("C08","Token recording is faithful and does not influence the parse",
 "With token recording on, the returned token list is exactly the sequence of tokens handed to the grammar, each once and in order; with it off the list is empty; and the option changes nothing else in the result (tree, diagnostics, comments, magic comments).",
 ["inputs","configurations"],"all inputs, both settings",
 "Tests record tokens in one fixed setting and never compare the two settings.",
 [G,"src/parser_options.rs","src/parser_result.rs"],[("recording gate","next_token in src/parser/parse.y"),("option plumbing","src/parser_options.rs")])
p("C09","No sub-expression is lost, duplicated or reordered on the way to the tree",
 "For every accepted program each operand, argument, parameter, statement and list element that the grammar recognises becomes part of the returned tree, exactly once, and the elements of every list in the tree stand in source order.",
 ["inputs","programs"],"all accepted programs, all grammar rules and all builder paths",
 "Fixtures compare few trees; an alternative that drops or swaps an operand shows only for that alternative and that optional part.",
 [G,B],[("actions move semantic values into nodes","src/parser/parse.y"),("node construction","src/builder.rs")])
p("C10","Source ranges of nodes cover their parts, in source order",
 "For every node of every returned tree the node's own range starts no later than and ends no earlier than each of its children and each keyword, operator and delimiter range it records, and those parts are recorded in the order in which that kind of node is written (for instance keyword, condition, then, body, else, end). Every recorded keyword, operator, delimiter and name range is that of the token playing that role. (A heredoc's body lies outside its node's range, and the separator after a when/in pattern may lie beyond a clause without a body.)",
 ["inputs","programs"],"all accepted programs, all node kinds, all combinations of optional parts",
 "Range bugs need the particular optional part to be present or absent; fixtures check a few node kinds.",
 [B,G,"src/loc_ext.rs"],[("range computation at node construction","src/builder.rs")])
p("C11","Every binding construct makes its name visible to the following text",
 "Every construct that introduces a local name (plain, multiple and operator assignment, every kind of method/block/lambda parameter, block-local variables, for-loops, rescue variables, pattern variables and splats, named regexp captures excluded when regexp support is off) declares that name in the innermost scope before the text after it is read, so that a later bare use of the name is parsed as a variable read and an undeclared one as a method call.",
 ["inputs","programs"],"all accepted programs, all binding constructs",
 "Each binding form in each production must declare; a form that forgets shows only when the name is used later.",
 [B,G,"src/static_environment.rs"],[("declaration on assignment and parameters","src/builder.rs assignable/match_*, src/parser/parse.y parameter rules")])
p("C12","Operators group by Ruby's precedence and associativity",
 "For every pair of operators `a op1 b op2 c` (and unary, ternary, range, assignment, not/and/or and modifier forms) the tree groups operands according to Ruby's published precedence and associativity table, and non-associative operators do not chain.",
 ["inputs","programs"],"all pairs of operators in every parser state where both can follow",
 "About a thousand operator pairs; fixtures contain a handful.",
 [G],[("precedence declarations and the parser tables generated from them","src/parser/parse.y %left/%right/%nonassoc")])
p("C13","Exactly Ruby's reserved words are reserved, each with its own meaning",
 "Each of Ruby's reserved words, and no other identifier, is recognised as a keyword; each maps to its own keyword token, its own modifier form where the language has one, and the right following-context; lookup finds every one of them.",
 ["inputs"],"all identifiers",
 "Fixtures use some of the 41 keywords, rarely in modifier position.",
 ["src/reserved_words","codegen/rust/reserved_words.rs","src/lexer/parse_ident.rs"],[("keyword table and its lookup","src/reserved_words/list.rs, codegen/rust/reserved_words.rs")])
p("C14","Undecodable input is reported, never silently reinterpreted",
 "When the source declares an encoding in a magic comment at its top, the text is decoded by the caller's decoder unless it is UTF-8 or ASCII-8BIT/BINARY; a missing decoder, a decoder failure or an unknown encoding always yields an error diagnostic and stops the parse, and the decoder's output - never the undecoded bytes - is what gets parsed and returned.",
 ["inputs","configurations"],"all declared encodings, all decoders (including failing ones)",
 "Tests use one decoder and one encoding.",
 ["src/source/decoder.rs","src/source/input.rs","src/lexer/parse_magic_comment.rs","src/source/buffer.rs"],[("encoding selection","src/source/decoder.rs"),("encoding comment handling","src/lexer/parse_magic_comment.rs")])
p("C15","Everything collected while parsing is handed to the caller",
 "Every comment that the lexer skips (line comments and =begin/=end blocks), every recognised magic comment, every diagnostic that was reported and the decoded input are all part of the returned result: nothing collected is dropped, filtered or cleared on the way out, whether parsing succeeds or fails.",
 ["inputs"],"all inputs, successful or not",
 "Tests look at comments and diagnostics of single small snippets.",
 [G,"src/lexer/main.rs","src/error/diagnostic.rs","src/parser_result.rs"],[("result assembly","do_parse in src/parser/parse.y"),("comment recording","src/lexer/main.rs")])
p("C16","A string literal's pending state always matches the token just returned",
 "Whenever the lexer returns the token that opens a string-like literal or heredoc the corresponding literal is pending, whenever it returns the token that closes it nothing of that literal is pending any more, and in between every content, space and interpolation token leaves exactly the same literal pending - on every path, including malformed and unterminated literals.",
 ["inputs"],"all inputs, all literal kinds",
 "There are about twenty opening forms and as many exits from the content scanner; fixtures exercise the common ones.",
 ["src/lexer/parse_string.rs","src/lexer/parse_heredoc.rs","src/lexer/main.rs","src/lexer/parse_percent.rs"],[("pending-literal slot","src/lexer/*.rs strterm")])
p("C17","Each diagnostic kind always has its own fixed severity",
 "Every kind of diagnostic is reported with one severity everywhere: the kinds that describe invalid code are always errors, and the kinds that describe merely suspicious code are always warnings and never make the parser reject it.",
 ["inputs"],"all sites that report diagnostics",
 "Most diagnostic kinds are never produced by the fixtures.",
 [B,"src/lexer",G],[("reporting helpers","error/warn helpers in src/builder.rs, src/lexer/main.rs, src/parser/parse.y")])
p("C18","Static validity checks apply in every position the language requires them",
 "Invalid code is rejected wherever it is written: duplicate parameter names, duplicate pattern variables and pattern keys, numbered or reserved names as targets or parameters, assignment to keywords and special variables, dynamic constant assignment, duplicate block arguments and void-value operands are checked on every path that builds the construct, not only on the common one.",
 ["inputs","programs"],"all positions of all constructs subject to a validity check",
 "Each check has many call sites; removing it from one leaves the others, and the fixtures, passing.",
 [B,G],[("check helpers and their call sites","src/builder.rs check_*, src/parser/parse.y value_expr")])
p("C19","Token storage is always valid",
 "No use of the public API on any input reads a token after its contents were taken over by a node, or allocates a token from a pool that is missing or already released: a token's text reaches exactly one place, and lexing, parsing and disposing of lexer, parser and result in any order never touch freed or null token storage.",
 ["inputs","histories"],"all inputs, all grammar rules and builder paths, all orders of using the public lexer and parser",
 "Taking a token twice yields an empty name (or worse) only for the one construct whose path does so; the fixtures compare few of these names.",
 [B,G,"src/lexer/main.rs"],[("tokens handed out by the pool and taken once","src/builder.rs, src/parser/parse.y"),("pool attached to the lexer before tokens are made","src/lexer/main.rs tokenize_until_eof, Parser::new in src/parser/parse.y")])
p("C20","Characters with several readings are read by their context",
 "A character sequence that Ruby reads differently depending on what precedes it (prefix or infix operator, grouping or argument parenthesis, array or index, hash or block brace, regexp or division, symbol, label or ternary colon, percent literal or modulo, character literal or ternary, significant or ignored line break, setter/predicate name or operator) becomes the token Ruby's lexer produces there, consuming exactly the same characters, and leaves the reader expecting exactly what Ruby's lexer expects next (lexer state, start of a command, bracket bookkeeping).",
 ["inputs","histories"],"every lexer state x preceding space x start of command x punctuation sequence, any following text",
 "There are fifteen lexer states and about a hundred operator spellings; fixtures reach few of the combinations.",
 ["src/lexer/main.rs","src/lex_state.rs","src/lexer/parse_ident.rs","src/lexer/parse_percent.rs","src/lexer/parse_qmark.rs","src/lexer/parse_gvar.rs","src/lexer/parse_atmark.rs"],[("token choice and following state","Lexer::parser_yylex in src/lexer/main.rs"),("state predicates","src/lex_state.rs")])
p("C21","Every syntactic form is represented by its own documented tree",
 "For every syntactic form (each kind of literal, variable, call, operator, assignment, definition, control structure, pattern, argument and parameter list, with each combination of its optional parts) the returned tree is the one documented for that form: the same kind of node, every operand in the field of its role (receiver, condition, then-branch, else-branch, body, key, value, ...), method names, operators and literal texts as written (with the documented changes such as a trailing = for setters or @ for unary operators), and optional fields present exactly when the part was written.",
 ["inputs","programs"],"all productions, all combinations of optional parts, kinds of operands and list lengths",
 "There are about 120 node kinds and ten thousand combinations of form, optional parts and operand kinds; the fixtures compare a few hundred trees.",
 [B,G],[("node construction","src/builder.rs"),("grammar actions choose the builder function and its operands","src/parser/parse.y")])
p("C22","Building the tree never aborts on anything the grammar accepts",
 "No source text can make the parser abort while a tree is being built: every internal assumption made when a node is built (the kind of an operand, a list not being empty, a text having a first character or a given prefix, an optional part being present, no second block being attached) holds for everything that the grammar can hand to that place; otherwise a diagnostic is reported and the construct is rejected.",
 ["inputs","programs"],"all inputs; all productions and all kinds, presences and list lengths of their parts",
 "Each assumption fails only for one particular combination of constructs (an empty key in a pattern, a parameter name that starts with a multibyte character, a block given to a call that already has one); the fixtures contain none of them.",
 [B,G],[("unreachable!, unwrap, indexing and text slicing in node construction","src/builder.rs"),("grammar actions","src/parser/parse.y")])
p("C23","Literals denote the value their text has in Ruby",
 "The content of every string, symbol, word list, regexp, command and character literal is what Ruby gives for its spelling: each escape (simple, octal, hexadecimal, unicode, control and meta, nested) denotes Ruby's bytes, a backslash that Ruby keeps is kept and one that Ruby drops is dropped for that kind of literal and delimiter, nested delimiters belong to the content, and the literal ends where Ruby ends it; a number keeps its sign, prefix, digits and suffix, ends where Ruby ends it and becomes an integer, float, rational or imaginary as in Ruby; a squiggly heredoc loses exactly the common indentation (tabs to multiples of eight), only at the start of its lines; a line ends a heredoc exactly if it consists of its identifier, after blanks if indentation is allowed; the options of a regexp are the letters written behind it, sorted and without repetition. A spelling that Ruby rejects is reported as an error.",
 ["inputs"],"all single escapes and characters in every kind of literal, all number spellings of up to four characters and structured longer ones, all indentations of up to five blanks",
 "Each escape behaves differently in each kind of literal and next to each delimiter; the tests sample a handful of spellings.",
 ["src/lexer/parse_string.rs","src/lexer/parse_numeric.rs","src/lexer/parse_qmark.rs","src/lexer/parse_heredoc.rs","src/builder.rs","src/maybe_byte.rs","src/token_buf.rs"],[("contents of literals","tokadd_string, tokadd_utf8, tokadd_escape and read_escape in src/lexer/parse_string.rs"),("numbers","parse_numeric in src/lexer/parse_numeric.rs"),("dedenting","dedent_string and heredoc_dedent in src/builder.rs; update_heredoc_indent in src/lexer/parse_heredoc.rs")])
p("C24","Every diagnostic designates the code it is about",
 "The location of every error and warning about a construct is the range of the token or node at fault, not that of a neighbour, of the first instead of the repeated occurrence, or of a part of it: a repeated parameter, hash key or pattern variable is reported where it is repeated, a void value at the expression that has no value, an invalid assignment target or parameter name at that target or name, a block given twice at the block argument, a keyword in a wrong place at that keyword. The name quoted in a message is the one written there.",
 ["inputs"],"all productions and builder functions that report something, lists of up to three elements",
 "Each of the some 150 productions and functions that report something has its own cases (kind of node, number of elements, presence of optional parts); the tests compare the range for one case of some of them.",
 [B,G],[("errors of the grammar actions","yyerror, warn and value_expr uses in src/parser/parse.y"),("errors of the builder","self.error and self.warn in src/builder.rs"),("expressions without a value","void_value in src/builder.rs")])
p("C25","Byte offsets translate to the right line, column and text",
 "For every decoded input the lines partition the text, each ended by its line end and the last by the end of the text; an offset within the text (its end included) has as line the number of line ends before it and as column its distance from the last of them, and an offset behind it has none; expanding a range to its line gives exactly that line without its line end; the source of a range is exactly those bytes, and a range outside the text has none. A rendered diagnostic names the input, line (from one) and column, repeats that line, and marks the range.",
 ["inputs"],"all layouts of line ends in texts of up to six bytes, all offsets and (up to four bytes) all ranges",
 "Empty inputs, empty lines, a missing or final line end and offsets at the boundaries of lines each take another path; the tests use one text.",
 ["src/source/decoded_input.rs","src/source/source_line.rs","src/loc_ext.rs","src/error/diagnostic.rs"],[("lines and positions","DecodedInput::update_bytes and line_col_for_pos in src/source/decoded_input.rs"),("ranges","LocExt in src/loc_ext.rs"),("rendering","Diagnostic::render in src/error/diagnostic.rs")])
p("C26","Names and percent literals are read whole, as the kind their spelling has",
 "Every local name, constant, method name, label, instance, class and global variable, numbered and back reference is read from its first to its last character, multibyte characters included, and becomes the token its spelling and position have in Ruby: a trailing ! or ? belongs to the name unless it starts != or ?=, a trailing = only where a method name is being given and no other operator follows, a colon makes a label only where a label may stand and no second colon follows; a name is a constant exactly if it starts with an uppercase letter; a variable without a name or starting with a digit is an error. What may follow (an argument, an operator) is decided by the position and by whether the name is a local variable. A percent literal has the kind its letter says and ends at the delimiter matching the one it was opened with; unknown kinds are errors.",
 ["inputs"],"all one-character names and two-character continuations in ASCII, representative longer and multibyte names with all suffixes, in all lexer states",
 "What belongs to a name depends on up to three following characters, the lexer state and the position in a command; the tests sample a few combinations.",
 ["src/lexer/parse_ident.rs","src/lexer/parse_gvar.rs","src/lexer/parse_atmark.rs","src/lexer/parse_percent.rs","src/lexer/main.rs","src/lex_state.rs","src/source/buffer.rs"],[("names and labels","parse_ident in src/lexer/parse_ident.rs"),("variables","parse_gvar in src/lexer/parse_gvar.rs, parse_atmark in src/lexer/parse_atmark.rs"),("percent literals","percent_quotation in src/lexer/parse_percent.rs")])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
