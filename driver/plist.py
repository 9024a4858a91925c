"""The properties (properties.jsonl is written from this list)."""
def P(id, title, statement, over, text, why, files, mech):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
L = "lexer/src/lib.rs"
PROPERTIES = [
P("C01", "Tokens tile the source text",
  "Reading a source yields tokens in source order whose spans are non-empty, do not overlap and delimit exactly the text each token was read from; everything between two tokens is white space, line terminators or comments (including the legacy HTML-like ones), and nothing else is skipped. A token is marked first-on-line exactly when a line terminator or a single-line comment (or the start of the text) precedes it with no other token in between. An unterminated comment is an error.",
  ["inputs"], "every source text, from every position at which a token can begin, in every lexer state",
  "Tests sample a few dozen spans; that nothing is lost, skipped or attributed to the wrong line holds over all texts and all mixtures of white space and comments.",
  [L, "lexer/src/code_point.rs", "common/src/io.rs", "common/src/io/char_reader.rs"],
  [("Lexer::read, skip_comments_and_white_spaces, skip_whitespaces, skip_multi_line_comment", L), ("PeekReader::consume, position", "common/src/io.rs"), ("CharIndices::next", "common/src/io/char_reader.rs")]),
P("C02", "Punctuators are read by longest match",
  "Where a punctuator begins, the token read is the longest punctuator whose spelling stands there, except that `?.` directly before a digit is read as `?`; two dots that are not three are an error. The token's kind and its extent belong to the same spelling.",
  ["inputs"], "every text and every position at which a punctuator can begin, including the end of the text",
  "The 54 spellings overlap as prefixes of one another and of what follows; tests try single operators in a friendly context, not every continuation and not the end of input.",
  [L, "lexer/src/token.rs"], [("Lexer::read", L), ("produce! macro", L), ("Punctuator", "lexer/src/token.rs")]),
P("C03", "Numeric literals follow the grammar exactly",
  "A numeric literal is accepted exactly when it is a decimal, hexadecimal, octal or binary literal of ECMAScript with separators only between two digits, no legacy leading zero, at least one digit after a base prefix or an exponent mark, and no identifier character directly behind it. The token's raw text is the source text it spans, character for character.",
  ["inputs"], "every text at every position where a digit, or a dot followed by a digit, stands",
  "The accept/reject boundary is a language over arbitrarily long digit strings; tests sample a handful of its words.",
  ["lexer/src/number.rs", L], [("read_number_literal, read_decimal_string, read_hex_string, read_octal_string, read_binary_string", "lexer/src/number.rs"), ("read_while", "common/src/io/char_reader.rs")]),
P("C04", "String, template and regular expression literals end where they must",
  "A string ends at the first unescaped matching quote and never spans an unescaped carriage return or line feed; a template part ends at the first unescaped backquote or `${`; a regular expression ends at the first unescaped slash outside a class and never spans a line terminator; what is unterminated is an error. The value of a string or template part is its characters with each escaping backslash removed; the value of a regular expression is its source text with its flags.",
  ["inputs"], "every text at every position where a string, template part or regular expression begins, with any escapes, classes, nesting and end of text",
  "Delimiting depends on unbounded runs of escapes, classes and line terminators; the tests contain a few short literals.",
  ["lexer/src/string.rs", "lexer/src/regexp.rs", L], [("read_string_literal, read_until_unescaped_delimiter, read_escape_sequence", "lexer/src/string.rs"), ("read_regexp_literal, read_regexp_group_body", "lexer/src/regexp.rs"), ("read_template_literal_head, read_template_literal_middle_or_tail, read_until_end_of_template_literal_part", L)]),
P("C05", "Keyword, punctuator and operator spellings are exact and reversible",
  "Every keyword, punctuator and operator has exactly one spelling, the one ECMAScript gives it: reading that spelling yields it, no other text yields it, and printing it gives the same spelling back.",
  ["inputs"], "every text whatsoever read as a keyword, punctuator, variable kind or operator, and every value printed",
  "The tests read a few dozen of the spellings; that no other text is accepted and that reading and printing are inverse is a statement over all texts and all values.",
  ["macros/src/enum_from_string.rs", "lexer/src/token.rs", "ast/src/expr.rs", "ast/src/stmt.rs"],
  [("FromString derive: from_str, to_string", "macros/src/enum_from_string.rs"), ("Keyword, Punctuator", "lexer/src/token.rs"), ("BinaryOperator, LogicalOperator, UnaryOperator, UpdateOperator, AssignmentOperator", "ast/src/expr.rs")]),
P("C06", "Looking ahead, rewinding and re-reading do not change what is read",
  "Peeking never consumes. After rewinding to an earlier token the reader yields that same token again (kind, span, line flag) and behind it exactly the tokens a fresh reading from there yields. Re-reading the current token as a regular expression or template part replaces only that token: it is read from the same place, and what follows is read in the default mode from where the new token ends, whether or not re-reading succeeds. The reported position is the end of the last consumed token.",
  ["inputs", "histories"], "every text and every sequence of consume, peek, rewind and re-read operations the parser can perform",
  "The parser rewinds and re-reads at many places and in any order; tests exercise single rewinds on short texts, not all interleavings and not failing re-reads.",
  ["common/src/io.rs", L, "parser/src/lib.rs"], [("PeekReader: consume, peek, rewind_to, reread_with_state", "common/src/io.rs"), ("ReReadWithState for Lexer: rewind_before, read_with_state, seek", L)]),
P("C07", "Every text is either parsed or rejected with an error",
  "Parsing any source text as a script or a module returns a program or an error; it never panics: no unwrap or unreachable branch is reached, no index or slice is out of range and no arithmetic overflows.",
  ["inputs"], "every source text, well formed or not, as script and as module",
  "Panics hide behind malformed input nobody wrote a test for: a token missing, doubled or cut off at the worst place.",
  ["parser/src/lib.rs", "parser/src/expr.rs", "parser/src/cover.rs", "parser/src/literal.rs", L, "common/src/io.rs"],
  [("parse, parse_script, parse_module", "parser/src/lib.rs"), ("unwrap and unreachable! sites of the parser", "parser/src"), ("Lexer::read", L)]),
P("C08", "The tree is the one the text describes",
  "The syntax tree of an accepted program contains what the text contains and nothing else: every identifier, literal, operator, keyword-introduced construct, modifier (async, generator, static, getter, setter, computed, spread, rest, default value, label) and every child of a construct appears in the node ECMAScript's grammar assigns it to, in source order, none is lost, doubled or exchanged with another.",
  ["inputs"], "every accepted program of the supported syntax, of any size and nesting",
  "Tests compare the trees of a few hundred short programs; a construct nested in another, in an unusual context or combination, is not among them.",
  ["parser/src/expr.rs", "parser/src/stmt.rs", "parser/src/function.rs", "parser/src/class.rs", "parser/src/method.rs", "parser/src/literal.rs", "parser/src/binding.rs", "parser/src/module.rs", "parser/src/iteration.rs", "parser/src/lib.rs"],
  [("parse_* functions of the parser", "parser/src"), ("Parser::consume, maybe_consume, reader rewinds", "parser/src/lib.rs")]),
P("C09", "Every node's span delimits its source text",
  "The span of every node of the tree starts where the first token of the construct starts and ends where its last token ends: it covers the whole construct including its delimiters and its optional semicolon, and nothing before or behind it. (The span of a static class method is the one of the method without the word `static`; positions behind a non-ASCII character are those of C01's finding.)",
  ["inputs"], "every node of every accepted program, whatever stands around the construct",
  "Most tests check a node's span only with the construct alone in the text; the offsets differ only with other text before, behind or between.",
  ["parser/src/expr.rs", "parser/src/stmt.rs", "parser/src/function.rs", "parser/src/member_access.rs", "parser/src/lib.rs", "common/src/io.rs"],
  [("Parser::position, span_from and every span built from them", "parser/src"), ("Spanned", "ast/src")]),
P("C13", "Semicolons are inserted exactly where ECMAScript inserts them",
  "A statement that ends with a semicolon may leave it out exactly before a line break, before `}` and at the end of the text (and behind `do … while (…)`); anywhere else a missing semicolon is an error. The program then has the same tree as with the semicolon written out. A line break does not end an expression that goes on behind it. No line break is allowed between an operand and a postfix `++`/`--`, before `=>`, behind `throw` and between `async` and what it belongs to; behind `return`, `break`, `continue` and `yield` it ends the operand. A semicolon is never inserted in the head of a `for` nor to stand for an empty statement.",
  ["inputs"], "every accepted or rejected program, with any mixture of line breaks, comments and other tokens between any two tokens",
  "Whether a token starts a line matters at every token of every construct; tests write a newline in a dozen places.",
  ["parser/src/stmt.rs", "parser/src/expr.rs", "parser/src/function.rs", "parser/src/variable.rs", "parser/src/module.rs", "parser/src/lib.rs", L],
  [("consume_optional_semicolon", "parser/src/stmt.rs"), ("stmt_ended, can_insert_semicolon, first_on_line, followed_by_new_line", "parser/src/lib.rs"), ("parse_update_expr, parse_yield_expr, parse_assignment_expr_async", "parser/src/expr.rs"), ("parse_arrow_function", "parser/src/function.rs")]),
P("C11", "Reserved words are identifiers nowhere, other words everywhere",
  "Wherever the returned tree has an identifier that names a variable, function, class, parameter, label or import, its name is no reserved word; it is not `yield` in the body of a generator nor `await` in the parameters or body of an async function or method or in the body of an async arrow function; and in strict code (a module, a class, a script or function body with a \"use strict\" directive and everything inside one) it is none of `yield`, `let`, `static`, `implements`, `interface`, `package`, `private`, `protected`, `public`. Leaving a function restores the rules of the code around it. Contextual words (`as`, `async`, `from`, `get`, `of`, `set`, `target`), and the words above outside their contexts, are accepted as identifiers, and every word is accepted as a property name.",
  ["inputs"], "every accepted program: every identifier position, under every nesting of functions, classes, methods, arrow functions, directives and modules",
  "Whether a word is reserved depends on the chain of constructs around it; the number of (word, position, nesting) combinations is unbounded and tests sample a few dozen.",
  ["parser/src/lib.rs", "parser/src/function.rs", "parser/src/class.rs", "parser/src/method.rs", "parser/src/expr.rs", "parser/src/binding.rs", "parser/src/module.rs", "parser/src/static_semantics.rs", "lexer/src/token.rs"],
  [("is_allowed_as_identifier", "lexer/src/token.rs"), ("is_identifier, parse_identifier, Context, Parse::parse", "parser/src/lib.rs"), ("parse_function_body, parse_arrow_function", "parser/src/function.rs"), ("parse_class_decl, parse_class_expr", "parser/src/class.rs"), ("parse_method", "parser/src/method.rs"), ("contains_strict", "parser/src/static_semantics.rs")]),
P("C12", "Early errors are rejected",
  "No accepted program contains: an assignment, update or for-in/for-of target that is neither a name nor a member access (in parentheses or not) nor a pattern, nor `eval` or `arguments` as such a target in strict code; a compound assignment to a pattern; `delete` of a bare name in strict code; `return` outside a function body; `yield` or `await` as an operator outside a generator or an async function; `super.x` outside a method, `super()` outside the constructor of a class that extends another, bare `super`; a getter with parameters, a setter without exactly one, a method with two parameters of the same name, a method with a \"use strict\" directive and parameters other than plain names; a declared pattern without initializer; `try` without catch and finally; a template behind an optional chain; an import or export declaration in a script; a call, member access, template or `new` on anything but a call, member or primary expression. A program without such an error is not rejected for one.",
  ["inputs"], "every accepted program: every such construct in every nesting of functions, classes, methods, arrow functions and modules",
  "Whether a construct is an error depends on the chain of constructs around it, and several readings of the same text (cover grammars) lead to the same construct; the tests check one nesting of each.",
  ["parser/src/static_semantics.rs", "parser/src/expr.rs", "parser/src/cover.rs", "parser/src/function.rs", "parser/src/class.rs", "parser/src/method.rs", "parser/src/member_access.rs", "parser/src/stmt.rs", "parser/src/module.rs", "parser/src/variable.rs", "parser/src/iteration.rs", "parser/src/lib.rs"],
  [("ExprSemantics, FormalParametersSemantics, BindingPatternSemantics", "parser/src/static_semantics.rs"), ("parse_assignment, parse_unary_expr, parse_update_expr, parse_optional_expr", "parser/src/expr.rs"), ("normalize_left_side_assignment", "parser/src/cover.rs"), ("parse_class_element", "parser/src/class.rs"), ("parse_method, parse_getter_or_setter", "parser/src/method.rs"), ("parse_super_call_expr, parse_member_expr_right_side", "parser/src/member_access.rs"), ("parse_return_stmt, parse_try_stmt", "parser/src/stmt.rs"), ("Context", "parser/src/lib.rs")]),
P("C14", "Errors point at the offending text",
  "The error of a rejected text has a span that lies inside the text (start not behind end, end not behind the end of the text); when a token is reported, the span is the one of that token. The rendered diagnostic names the line and column of the span's start, shows that line, and marks exactly the span.",
  ["inputs"], "every rejected text and every error the parser produces",
  "A wrong offset shows only for particular error sites, line layouts and truncations; the tests look at a small number of rendered errors.",
  ["parser/src/error/mod.rs", "parser/src/error/emitter.rs", L], [("Error constructors", "parser/src/error/mod.rs"), ("ErrorEmitter: emit_error, get_line_number, get_line_boundaries", "parser/src/error/emitter.rs")]),
]
