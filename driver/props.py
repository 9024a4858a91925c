"""Per property: which contract tags are switched on, which of them the property owns, and what the stand-in explores."""
TECH = "contract-based deductive verification (Verus) of the mechanically extracted source"
LEX_MODULES = ["lexspec", "rd", "tables", "fajt_common", "fajt_lexer"]
RW = r"common::PeekReader::read_while"
READER = r"common::PeekReader::(new|with_offset|position|current|peek|consume)$|common::PeekRead<char>@CharIndices::next"
PARSER_MODULES = ["lexspec", "rd", "tables", "ps", "ps2", "sp", "vx", "fajt_common", "fajt_lexer", "fajt_parser", "fajt_ast"]
# failures that do not say that a panic is reachable, only that the argument for its absence has a gap
NOT_A_PANIC = [r"^postcondition", r"invariant", r"^precondition.*(\.dfl|pwf\(\)|fwd\(|good\(|moved\()"]
ASCII_NOTE = "positions behind a non-ASCII character are the ones fajt reports (known finding)"
PROPS = {
    "C01": {
        "tags": ["C01"], "own": ["C01"], "own_base": False, "modules": LEX_MODULES,
        "own_fns": [r"lexer::Lexer::(skip_.*|at_html_comment|is_end|read|read_all|new)$", r"lexer::PeekRead<Token>@Lexer::next", r"lexer::CodePoint@char::is_ecma_.*", READER, RW + "@skip_rest_of_line", r"lexer::Token::new", r"ast::Span::new"],
        "harness": "lex-ws,chars", "technique": TECH,
        "note": "Proof that Lexer::read computes the reference reading (skipped region, token, span, first-on-line) for every text, state and position; " + ASCII_NOTE + ".",
    },
    "C02": {
        "tags": ["C02"], "own": ["C02"], "own_base": False, "modules": LEX_MODULES,
        "own_fns": [r"lexer::Lexer::read$"],
        "harness": "lex-punct", "technique": TECH,
        "note": "Proof that Lexer::read yields the punctuator `pt` names, and a lemma that `pt` is the longest spelling of the (separately proved) table.",
    },
    "C03": {
        "tags": ["C03"], "own": ["C03"], "own_base": False, "modules": LEX_MODULES,
        "own_fns": [r"lexer::Lexer::(read_number_literal|read_(hex|octal|binary|decimal)_string|expect_read_number_string.*|read_number_string.*)$", RW + r"@read_number_string.*", r"lexer::CodePoint@char::is_start_of_identifier"],
        "harness": "lex-num,chars", "technique": TECH,
        "note": "Proof that the number reader accepts exactly the specified language and returns the source text, for every text.",
    },
    "C04": {
        "tags": ["C04"], "own": ["C04"], "own_base": False, "modules": LEX_MODULES,
        "own_fns": [r"lexer::Lexer::(read_string_literal|read_until_unescaped_delimiter|read_escape_sequence|validate_character|read_regexp_literal|read_regexp_group_body|read_template_literal_.*|read_until_end_of_template_literal_part)$", RW + "@read_regexp_literal"],
        "harness": "lex-lit", "technique": TECH,
        "note": "Proof that each literal reader stops exactly where the specification says and yields the specified value, for every text.",
    },
    "C06": {
        "tags": ["C06"], "own": ["C06"], "own_base": False, "modules": ["lexspec", "rd", "fajt_common", "fajt_lexer"],
        "own_fns": [r"common::(PeekReader|ReReadWithState|PeekRead)::(?!read_while)", r"lexer::ReReadWithState<Token>@Lexer::.*", r"lexer::PeekRead<Token>@Lexer::next", r"lexer::Seek@Lexer::.*", r"lexer::Lexer::(set_state|new|seek.*)$"],
        "harness": "reader", "technique": TECH,
        "note": "Proof over the generic PeekReader and the real Lexer: contracts of consume, rewind_to, reread_with_state, rewind_before, read_with_state in terms of the reference reading; non-ASCII texts: see C01's finding.",
    },
    "C07": {
        "tags": ["C07"], "own": ["C07"], "own_base": False, "modules": PARSER_MODULES,
        "own_fns": [r"parser::.*", r"ast::.*", r"common::.*", r"lexer::.*"], "soft": NOT_A_PANIC,
        "harness": "broken", "technique": TECH,
        "note": "Proof that no panic, failed unwrap, unreachable!, out-of-range index or arithmetic overflow is reachable in lexer, reader and parser, for every ASCII text and every context; stack exhaustion by deep nesting and the formatting macros of the error emitter are outside.",
    },
    "C08": {
        "tags": ["C08"], "own": ["C08"], "own_base": False, "modules": PARSER_MODULES,
        "own_fns": [r"parser::.*", r"common::PeekReader::(?!read_while)"], "own_clauses": [r"\.(fwd|good|moved|ate|keep)\(", r"pwf\(\)", r"\.dfl", r"\.lg\b"],
        "harness": "prog-tree", "technique": TECH,
        "note": "Proof that every function of the parser consumes tokens only forwards, each one once, from where it stands (rewinds go back to exactly a token boundary and are followed by a new reading), and leaves reader and context consistent; the content of the nodes is compared with generated programs (bounded).",
    },
    "C09": {
        "tags": ["C09"], "own": ["C09"], "own_base": False, "modules": PARSER_MODULES,
        "own_fns": [r"parser::Parser::(position|span_from)$", r"ast::Spanned@.*", r"ast::(Ident|ExprThis|Span)::new$", r"common::PeekReader::position$", r"lexer::Token::new$"],
        "harness": "prog-span", "technique": TECH,
        "note": "Proof for every function of the parser that builds a node: the node's span starts where the first token consumed for it starts and ends where the last one ends (a span start handed in is the one of the construct), for every ASCII text; the span of a static method is the one without `static` (known finding).",
    },
    "C13": {
        "tags": ["C13"], "own": ["C13"], "own_base": False, "modules": PARSER_MODULES,
        "own_fns": [r"parser::Parser::(is_end|stmt_ended|can_insert_semicolon|consume_optional_semicolon|first_on_line|followed_by_new_line)$"],
        "harness": "rules-asi", "technique": TECH,
        "note": "Proof that a semicolon is taken for present exactly before a line break, `}` or the end, that every statement that needs one ends with one, that operands of return, break, continue and yield, postfix operators, arrows and async obey the line break rules, for every ASCII text; equality of trees with and without the semicolon is compared on generated programs (bounded).",
    },
    "C11": {
        "tags": ["C11"], "own": ["C11"], "own_base": False, "modules": PARSER_MODULES + ["w11"],
        "own_fns": [r"parser::Parser::(is_identifier|parse_identifier|parse_binding_identifier|parse_identifier_reference|with_context)$", r"parser::is_identifier$", r"parser::Context::.*", r"parser::.*contains_strict$", r"lexer::Keyword::is_allowed_as_identifier$"],
        "harness": "rules-ident", "technique": TECH,
        "note": "Proof, for every ASCII text, that every identifier anywhere in the tree a parser function returns is a name allowed under the await/yield/strict context the surrounding nodes of that tree give it (a predicate over whole trees, postcondition of every parser function up to parse_script and parse_module), and that an identifier is taken for one exactly when allowed; acceptance of allowed names and of reserved words as property names is also compared on generated programs (bounded).",
    },
    "C12": {
        "tags": ["C12"], "own": ["C12"], "own_base": False, "modules": PARSER_MODULES + ["w12"],
        "own_fns": [r"parser::(ExprSemantics|FormalParametersSemantics|BindingPatternSemantics|BindingElementSemantics|DirectivePrologueSemantics).*", r"parser::get_first_duplicate$", r"parser::Parser::validate_no_template_in_optional_chain$", r"parser::Context::.*"],
        "harness": "rules-early", "technique": TECH,
        "note": "Proof, for every ASCII text, that no tree a parser function returns holds one of the listed errors (a predicate over whole trees, postcondition of every parser function up to parse_script and parse_module); that programs without such an error are accepted, and the shape of what the cover grammars turn into, are compared on generated programs (bounded).",
    },
    "C14": {
        "tags": ["C14"], "own": ["C14"], "own_base": False, "modules": PARSER_MODULES,
        "own_fns": [r"parser::Error::.*", r"parser::ErrorEmitter::(new|get_.*)$", r"parser::From<.*LexerError>@Error::from"],
        "harness": "error", "technique": TECH,
        "note": "Proof that the error constructors keep span and kind and that the line computation never cuts inside a character; spans of all errors and the rendered text are compared on mutated programs (bounded).",
    },
    "C05": {
        "tags": ["C05"],
        "own": ["C05"],
        "own_base": False,
        "own_fns": [r".*::(as_str|from_str|to_string)$"],
        "harness": "tables",
        "technique": TECH,
        "note": "Proof over the real FromStr / as_str / to_string of every table enumeration, redone on each run; trusts std string primitives.",
    },
}
NOT_APPLICABLE = {}
