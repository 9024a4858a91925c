# The parser: frame of every function, and the primitives every other function is built from.
== template crate=parser ; recv=mut ; type=Parser
req: old(self).pwf()
req[.dfl]: old(self).v().dfl
begin: broadcast use crate::ps::group_ps;
lbegin *: broadcast use crate::ps::group_ps;
ens: final(self).pwf() && final(self).keep(*old(self))
ens: final(self).v().fwd(old(self).v())
inv: self.pwf() && self.keep(*old(self))
inv: self.v().fwd(old(self).v())
inv[.good]: self.v().good(old(self).v())
lpre *: let ghost vx_l$i = self.v();
inv: self.v().fwd(vx_l$i)
inv[.good]: self.v().good(vx_l$i)
== template crate=parser ; recv=mut ; type=Parser ; mentions=rewind_to|reread_with_state
begin: broadcast use crate::ps::group_back;
lbegin *: broadcast use crate::ps::group_back;
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<*
ens[.good]: r is Ok ==> final(self).v().good(old(self).v())
ens[.ate]: r is Ok ==> final(self).v().moved(old(self).v())
ens[.arrow]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> !crate::ps::objarr(x) && final(self).v().good(old(self).v()) && final(self).v().moved(old(self).v()))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Expr>
ens[.lit]: r matches Ok(x) ==> (crate::ps::objarr(x) ==> old(self).v().at_objarr())
== template crate=parser ; recv=mut ; type=Parser ; ret=Option<*
ens: final(self).v().good(old(self).v())
== template crate=parser ; recv=ref ; type=Parser
req: self.pwf()
begin: broadcast use crate::ps::group_ps;

== fn parser::Parser::current
ens: r is Ok <==> self.v().cur is Some
ens: r matches Ok(t) ==> self.v().cur == Some(*t)
== fn parser::Parser::peek
ens: r is Some <==> self.v().nxt is Some
ens: r matches Some(t) ==> self.v().nxt == Some(*t)
== fn parser::Parser::consume
untag: .dfl .ate .good
begin: reveal(crate::ps::rwf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::fajt_common::io::PeekReader::tok_wf);
ens: r is Ok ==> final(self).v().ate(old(self).v()) && old(self).v().cur == Some(r->Ok_0)
ens: r is Err ==> final(self).v().lg == old(self).v().lg && old(self).v().cur is None
== fn parser::Parser::consume_assert
untag: .dfl
ens: r is Ok ==> final(self).v().ate(old(self).v()) && old(self).v().cur == Some(r->Ok_0)
ens: r matches Ok(t) ==> (expected.plain() ==> t.value == *expected)
== fn parser::Parser::maybe_consume
untag: .dfl .ate
ens: r matches Ok(b) ==> (b ==> final(self).v().ate(old(self).v())) && (!b ==> final(self).v() == old(self).v())
untag: .good
ens: old(self).v().dfl ==> final(self).v().dfl
ens: r matches Ok(b) ==> (value.plain() ==> b == old(self).v().at(*value))
== fn parser::Parser::current_matches
ens: value.plain() ==> r == self.v().at(*value)
ens: r ==> self.v().cur is Some
== fn parser::Parser::peek_matches
ens: value.plain() ==> r == self.v().nxt_at(*value)
ens: r ==> self.v().nxt is Some
== fn parser::Parser::first_on_line
ens: r == (self.v().cur matches Some(t) && t.first_on_line)
== fn parser::Parser::followed_by_new_line
ens: r == (self.v().nxt matches Some(t) && t.first_on_line)
== fn parser::Parser::position
begin: reveal(crate::ps::rwf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::fajt_common::io::PeekReader::tok_wf);
ens: self.v().cur is Some || !self.v().stale ==> r == self.v().pos()
== fn parser::Parser::span_from
begin: reveal(crate::ps::rwf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::fajt_common::io::PeekReader::tok_wf);
ens: r.start == start && (!self.v().stale ==> r.end == self.v().end())
== fn parser::Parser::with_context
notemplate
req: old(self).pwf()
ens: r.context == context && r.source_type == old(self).source_type && *r.reader == *old(self).reader && *final(r.reader) == *final(self).reader
ens: final(self).context == old(self).context && final(self).source_type == old(self).source_type && *final(final(self).reader) == *final(old(self).reader)
# these may return without consuming
== fn parser::Parser::parse_directive_prologue
untag: .ate .good
ens: r is Ok ==> final(self).v().pos() >= old(self).v().pos() && final(self).v().dfl && (final(self).v().stale && !old(self).v().stale ==> final(self).v().cur is Some)
invx: self.v().good(vx_l0) && self.v().good(old(self).v())
lens: self.v().pos() >= old(self).v().pos() && self.v().dfl && (self.v().stale && !old(self).v().stale ==> self.v().cur is Some)
== fn parser::Parser::try_parse_for
untag: .good
ens: r matches Ok(x) ==> (x is Some ==> final(self).v().good(old(self).v()) && final(self).v().moved(old(self).v()))
== fn parser::Parser::consume_list_delimiter parser::Parser::parse_optional_arguments parser::Parser::parse_optional_class_identifier parser::Parser::parse_function_identifier parser::Parser::consume_optional_semicolon parser::Parser::parse_optional_variable_kind parser::Parser::parse_optional_for_init parser::Parser::try_parse_for parser::Parser::parse_recursive_call_expression parser::Parser::parse_postfix_update_expr parser::Parser::normalize_left_side_assignment parser::Parser::parse_all_stmts parser::Parser::parse_rest_binding_ident parser::Parser::parse_expr_sequence parser::Parser::parse_named_property_definition parser::Parser::parse_switch_case_stmt_list
untag: .ate

# errors
== fn parser::Error::lexer_error
ens: crate::ps::from_post(error, r)
== fn parser::From<LexerError>@Error::from
ens: crate::ps::from_post(error, r)
== fn parser::From<&LexerError>@Error::from
ens: crate::ps::from_post(*error, r)
== fn parser::Error::syntax_error
ens: r.span == span && r.kind is SyntaxError
== fn parser::Error::unexpected_identifier
ens: r.span == ident.span && r.kind is UnexpectedIdent
== fn parser::Error::unexpected_token
ens: r.span == token.span && r.kind == crate::fajt_parser::error::ErrorKind::UnexpectedToken(token.value, None)
== fn parser::Error::expected_other_token
ens: r.span == token.span && r.kind == crate::fajt_parser::error::ErrorKind::UnexpectedToken(token.value, Some(expected))
== fn parser::Error::expected_ident
ens: r.span == token.span && r.kind is ExpectedIdentifier
== fn parser::Error::forbidden_identifier
ens: r.span == span && r.kind is ForbiddenIdentifier
== fn parser::Error::arrow_function_not_allowed
ens: r.kind == crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(expr)
== fn parser::Error::initialized_name_not_allowed
ens: r.span == span && r.kind is InitializedNameNotAllowed
== fn parser::Error::kind
ens: *r == self.kind
== fn parser::Error::span
ens: *r == self.span
== fn parser::Error::from_kind
ens: r.span == span && r.kind == kind
== fn parser::Error::into_kind
ens: r == self.kind
# predicates on nodes: their errors are plain syntax errors
== fn parser::ExprSemantics::is_assignment_target_type_simple parser::ExprSemantics::early_errors_left_hand_side_expr parser::ExprSemantics::early_errors_update_expr_argument parser::ExprSemantics::early_errors_unary_delete
ens: r matches Err(e) ==> e.kind is SyntaxError
== fn parser::FormalParametersSemantics::early_errors_getter parser::FormalParametersSemantics::early_errors_method parser::FormalParametersSemantics::early_errors_setter parser::FormalParametersSemantics::early_errors_forbidden_use_strict
ens: r matches Err(e) ==> e.kind is SyntaxError
== template crate=parser ; recv=ref ; type=Parser ; ret=Result<*
ens: r matches Err(e) ==> !crate::ps::arrow(e)

# what makes an unwrap or an unreachable!() safe
== fn parser::Parser::is_identifier
ens: r == (self.v().cur matches Some(t) && crate::ps::idc(t, self.context))
== fn parser::Parser::peek_is_identifier
ens: r == (self.v().nxt matches Some(t) && crate::ps::idc(t, self.context))
== fn parser::is_identifier
begin: reveal(crate::ps::id_tok);
ens: r == (token matches Some(t) && crate::ps::id_tok(*t, crate::lx::ctx_await(keyword_context), crate::lx::ctx_yield(keyword_context), crate::lx::ctx_strict(keyword_context)))
== fn parser::Context::keyword_context
begin: proof { crate::vx::lemma_kwc_bits(); }
ens: crate::lx::ctx_await(r) == self.is_await && crate::lx::ctx_yield(r) == self.is_yield && crate::lx::ctx_strict(r) == self.is_strict
== fn parser::Context::with_await
ens: r == (crate::fajt_parser::Context { is_await: is_await, ..*self })
== fn parser::Context::with_yield
ens: r == (crate::fajt_parser::Context { is_yield: is_yield, ..*self })
== fn parser::Context::with_in
ens: r == (crate::fajt_parser::Context { is_in: is_in, ..*self })
== fn parser::Context::with_strict
ens: r == (crate::fajt_parser::Context { is_strict: is_strict, ..*self })
== fn parser::Context::with_default
ens: r == (crate::fajt_parser::Context { is_default: is_default, ..*self })
== fn parser::Context::with_return
ens: r == (crate::fajt_parser::Context { is_return: is_return, ..*self })
== fn parser::Context::with_in_method
ens: r == (crate::fajt_parser::Context { in_method: in_method, ..*self })
== fn parser::Context::with_super_call_allowed
ens: r == (crate::fajt_parser::Context { super_call_allowed: super_call_allowed, ..*self })
== fn parser::Context::with_static_method_allowed
ens: r == (crate::fajt_parser::Context { static_method_allowed: static_method_allowed, ..*self })
== fn parser::Context::reset_parameters
ens: r == (crate::fajt_parser::Context { is_await: false, is_yield: false, is_in: false, is_default: false, is_return: false, ..*self })
== fn parser::Parser::parse_primary_expr
attr: rlimit(60)
attr: spinoff_prover
untag: .mp .lt
begin: proof { crate::ps::lemma_lit_toks(*self.reader); }
== fn parser::Parser::parse_if_stmt parser::Parser::parse_left_hand_side_expr parser::Parser::parse_assignment_expr
attr: rlimit(60)
attr: spinoff_prover
== fn parser::Parser::parse_identifier
begin: reveal(crate::ps::id_tok);
ens: (old(self).v().cur matches Some(t) && crate::ps::idc(t, old(self).context)) ==> r is Ok
ens: r is Ok ==> final(self).v().ate(old(self).v())
== fn parser::Parser::parse_async_function_expr parser::Parser::parse_async_function_declaration
req: old(self).v().nxt matches Some(t) ==> !t.first_on_line
== fn parser::Parser::parse_regexp_literal
req: old(self).v().cur matches Some(t) ==> (t.value matches crate::fajt_lexer::token::TokenValue::Literal(l) ==> l is Regexp)
untag: .dfl
== fn parser::Parser::parse_member_property
req: old(self).v().at(crate::ps::P_DOT()) || old(self).v().at(crate::ps::P_SQ())
== fn parser::Parser::parse_member_expr_right_side
req: old(self).v().at(crate::ps::P_DOT()) || old(self).v().at(crate::ps::P_SQ())
== fn parser::Parser::parse_optional_member_property parser::Parser::parse_optional_member_expr
req: old(self).v().at(crate::ps::P_DOT()) || old(self).v().at(crate::ps::P_SQ()) || old(self).v().at(crate::ps::P_OPT())
== fn parser::Parser::parse_optional_expr
untag: .ate
== fn parser::Parser::parse_assignment_pattern
req: old(self).v().at(crate::ps::P_SQ()) || old(self).v().at(crate::ps::P_BR())
== fn parser::Parser::parse_literal
untag: .dfl
ens: r matches Ok(x) ==> (old(self).v().cur matches Some(t) && t.value is Literal && crate::ps::lit_of(x) == Some(t.value->Literal_0))
ens: old(self).v().cur is None ==> r is Err && final(self).v().lg == old(self).v().lg
untag: .lit
== fn parser::Parser::parse_regexp_literal
ens: old(self).v().cur is None ==> r is Err && final(self).v().lg == old(self).v().lg
untag: .lit
ens: r matches Ok(x) ==> !crate::ps::objarr(x)
== fn parser::Parser::parse_declaration
untag: .ate
ens: r matches Ok(x) ==> (x is Some ==> final(self).v().moved(old(self).v())) && (x is None ==> final(self).v() == old(self).v())
== fn parser::Parser::parse_function_body_stmt_list parser::Parser::parse_template_literal_parts
lens: self.v().moved(vx_l0)
== fn parser::Parser::normalize_left_side_assignment
notemplate
begin: broadcast use crate::ps::group_ps; broadcast use crate::ps::group_back;
req: old(self).pwf() && old(self).v().dfl
req: start_token.span.end <= old(self).v().lim && crate::ps::rdok(old(self).reader, *start_token)
req: old(self).v().ext0(old(self).v().back(*start_token)) && old(self).v().moved(old(self).v().back(*start_token)) && old(self).v().pos() >= start_token.span.start
req: crate::ps::objarr(pattern_or_expr) ==> old(self).v().back(*start_token).at_objarr()
ens: final(self).pwf() && final(self).keep(*old(self))
ens: final(self).v().fwd(old(self).v().back(*start_token))
ens: r is Ok ==> final(self).v().good(old(self).v().back(*start_token)) && final(self).v().moved(old(self).v().back(*start_token))
ens: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> !crate::ps::objarr(x) && final(self).v().good(old(self).v().back(*start_token)) && final(self).v().moved(old(self).v().back(*start_token)))
== fn parser::Parser::parse_recursive_binary_expr
inv: crate::ps::objarr($out) ==> old(self).v().at_objarr()
== fn parser::Parser::parse_optional_expr
untag: .lit
ens: r matches Ok(x) ==> (crate::ps::objarr(x) ==> crate::ps::objarr(left))
inv: crate::ps::objarr($out) ==> crate::ps::objarr(left)
== fn parser::Parser::parse_recursive_call_expression
untag: .lit
ens: r matches Ok(x) ==> (crate::ps::objarr(x) ==> crate::ps::objarr(previous_expr))
inv: crate::ps::objarr($out) ==> crate::ps::objarr(previous_expr)
== fn parser::Parser::consume_literal
untag: .lit
ens: r matches Ok(x) ==> crate::ps::lit_of(x) == Some(literal)
== fn parser::Parser::parse_initializer
untag: .lit
# these make neither an array nor an object literal
== fn parser::Parser::parse_call_expr parser::Parser::parse_member_expr_right_side parser::Parser::parse_unary_expr_with_operator parser::Parser::parse_await_expr parser::Parser::parse_prefix_update_expr parser::Parser::parse_assignment parser::Parser::parse_yield_expr parser::Parser::parse_tagged_template parser::Parser::parse_optional_call_expr parser::Parser::parse_optional_member_expr parser::Parser::parse_function_expr_content parser::Parser::parse_function_expr parser::Parser::parse_async_function_expr parser::Parser::parse_arrow_function parser::Parser::parse_arrow_function_expr parser::Parser::parse_async_arrow_function_expr parser::Parser::parse_super_property parser::Parser::parse_super_call_expr parser::Parser::parse_import_call_expr parser::Parser::parse_template_literal_expr parser::Parser::parse_parenthesized_expr parser::Parser::parse_cover_parenthesized_and_arrow_parameters parser::Parser::parse_postfix_update_expr parser::Parser::parse_class_expr parser::Parser::parse_new_expr parser::Parser::parse_identifier_reference parser::Parser::parse_this_expr
untag: .lit
ens: r matches Ok(x) ==> !crate::ps::objarr(x)
== fn parser::Parser::parse_new_or_member_expr
inv: crate::ps::objarr($out) ==> old(self).v().at_objarr()
== fn parser::Parser::parse_optional_unary_operator parser::Parser::parse_optional_update_operator parser::Parser::parse_optional_assignment_operator
ens: r is None ==> final(self).v() == old(self).v()
ens: r is Some ==> final(self).v().ate(old(self).v())
== fn parser::Parser::parse_function_expr_content
attr: rlimit(60)

# entry points: texts of ASCII characters (see the known finding on positions behind other characters)
== fn parser::Parse::parse
req: old(parser).pwf() && old(parser).v().dfl && !old(parser).v().stale
== fn parser::Parse@Program::parse parser::Parse@Expr::parse parser::Parse@Stmt::parse
begin: broadcast use crate::ps::group_ps;
== fn parser::Parser::parse
begin: broadcast use crate::ps::group_ps;
req: crate::ps::rwf(*old(reader)) && crate::ps::view(*old(reader)).ok() && crate::ps::view(*old(reader)).dfl && !crate::ps::view(*old(reader)).stale
== fn parser::Parser::new
ens: r matches Ok(p) ==> *p.reader == *old(reader) && *final(p.reader) == *final(reader) && p.source_type == source_type
ens: r is Ok
== fn parser::parse
begin: broadcast use crate::ps::group_entry;
req: crate::lexspec::ascii(source@)
== fn parser::parse_script parser::parse_module
req: crate::lexspec::ascii(source@)

# the error printer cuts the text at the ends of the error's span
== fn parser::ErrorEmitter::get_line_number
req: crate::vx::boundary(self.source@, span.start as int) && crate::vx::boundary(self.source@, span.end as int)
== fn parser::ErrorEmitter::get_line_boundaries
req: crate::vx::boundary(self.source@, span.start as int) && crate::vx::boundary(self.source@, span.end as int)
== fn parser::ErrorEmitter::get_kind_description
req: crate::vx::boundary(self.source@, error.span.start as int) && crate::vx::boundary(self.source@, error.span.end as int) && error.span.start <= error.span.end
# panics that are part of the function's meaning: never reached from the parser
== fn ast::Expr::unwrap_ident_ref
req: self is IdentRef
== fn ast::Expr::unwrap_literal
req: self is Literal
ens: r == self->Literal_0
== fn ast::Literal::unwrap_string
req: self is String
== fn ast::Stmt::unwrap_block_stmt
req: self is Block
== fn ast::Stmt::unwrap_expr_stmt
req: self is Expr
== fn ast::Span::translate
req: self.start <= isize::MAX && self.end <= isize::MAX && isize::MIN <= self.start + offset <= isize::MAX && isize::MIN <= self.end + offset <= isize::MAX
== fn parser::Parser::parse_block_stmt
ens: r matches Ok(x) ==> crate::ps2::is_block(x)
== fn parser::Parser::current_matches_string_literal
ens: r == (self.v().cur matches Some(t) && crate::ps2::str_tok(t))
