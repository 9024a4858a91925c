# Spans: a node delimits exactly the tokens it was parsed from
== super ast::Spanned crate::sp::VxSp
== fn ast::Spanned::span
ens: *r == crate::sp::VxSp::sp(self)
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Expr>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Stmt>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentPattern>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentElement>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PatternOrExpr>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedAssignmentProp>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameAssignmentProp>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingPattern>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ObjectBinding>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrayBinding>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameBinding>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedBinding>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingElement>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ClassElement>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Ident>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<FormalParameters>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Body>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<MethodDefinition>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SwitchCase>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<CatchClause>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<VariableDeclaration>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedImport>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedExport>
ens[C09 .span]: r matches Ok(x) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== fn ast::Ident::new
ens: crate::vx::into_rel::<S, Span>(span, r.span) && crate::vx::into_rel::<N, String>(name, r.name)
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<*
ens[C09 .ate]: r is Ok ==> old(self).v().cur is Some
== fn parser::Error::arrow_function_not_allowed
ens: r.span == crate::sp::VxSp::sp(&expr)
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<*
ens[C09 .arrowspan]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> crate::sp::spans(x, e.span.start as int, final(self).v().end()))
# the start is given
== fn parser::Parser::parse_unary_expr_with_operator parser::Parser::parse_assignment parser::Parser::parse_prefix_update_expr parser::Parser::parse_call_expr parser::Parser::parse_tagged_template parser::Parser::parse_arrow_function parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_for_in_of parser::Parser::parse_for_in parser::Parser::parse_for_of parser::Parser::parse_member_expr_right_side parser::Parser::parse_optional_call_expr parser::Parser::parse_optional_member_expr parser::Parser::parse_method parser::Parser::parse_default_export parser::Parser::parse_varible_statement_export parser::Parser::parse_declaration_export parser::Parser::parse_declaration_default_export parser::Parser::parse_namespace_export parser::Parser::parse_named_export parser::Parser::parse_module_import parser::Parser::parse_expr_sequence
untag: .span
ens[C09]: r matches Ok(x) ==> crate::sp::spans(x, span_start as int, final(self).v().end())
== fn parser::Parser::try_parse_for
ens[C09]: r matches Ok(Some(x)) ==> crate::sp::spans(x, span_start as int, final(self).v().end())
== fn parser::Parser::parse_postfix_update_expr
untag: .span
ens[C09]: r matches Ok(x) ==> crate::sp::spans(x, crate::sp::VxSp::sp(&argument).start as int, final(self).v().end())
== fn parser::Parser::parse_recursive_call_expression
untag: .span
req[C09]: crate::sp::spans(previous_expr, span_start as int, old(self).v().end())
req[C09]: !old(self).v().stale
ens[C09]: r matches Ok(x) ==> crate::sp::spans(x, span_start as int, final(self).v().end())
inv[C09]: crate::sp::spans($out, span_start as int, self.v().end())
== fn parser::Parser::parse_optional_expr
untag: .span
req[C09]: crate::sp::spans(left, span_start as int, old(self).v().end())
ens[C09]: r matches Ok(x) ==> crate::sp::spans(x, span_start as int, final(self).v().end())
inv[C09]: crate::sp::spans($out, span_start as int, self.v().end())
== fn parser::Parser::parse_new_or_member_expr parser::Parser::parse_recursive_binary_expr
inv[C09]: crate::sp::spans($out, old(self).v().pos(), self.v().end())
inv[C09]: old(self).v().cur is Some && span_start == old(self).v().pos()
== fn parser::Parser::normalize_left_side_assignment
req[C09]: crate::sp::VxSp::sp(&pattern_or_expr).start == start_token.span.start
ens[C09]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == start_token.span.start
== fn parser::Parser::parse_initializer parser::Parser::parse_binding_rest_element
untag: .span
ens[C09]: r matches Ok(x) ==> (old(self).v().nxt matches Some(t) && crate::sp::spans(x, t.span.start as int, final(self).v().end()))
== fn parser::Parser::parse_computed_property
untag: .span
ens[C09]: r matches Ok(x) ==> (old(self).v().nxt matches Some(t) && crate::sp::VxSp::sp(&x).start == t.span.start)
== fn parser::Parser::parse_namespace_import
untag: .span
ens[C09]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).end == final(self).v().end()
== fn parser::Parser::parse_optional_class_identifier parser::Parser::parse_function_identifier
untag: .span
ens[C09]: r matches Ok(x) ==> (final(self).v().lg.len() > old(self).v().lg.len() ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end()))
# `static` is outside of the span of a static method (known finding)
== fn parser::Parser::parse_method_definition parser::Parser::parse_class_element
untag: .span
ens[C09]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).end == final(self).v().end()
ens[C09]: r matches Ok(x) ==> (crate::sp::VxSp::sp(&x).start == old(self).v().pos() || old(self).v().at(crate::ps::K_STATIC()) && (old(self).v().nxt matches Some(t) && crate::sp::VxSp::sp(&x).start == t.span.start))
== fn parser::Parser::parse_arguments parser::Parser::parse_import_argument
ens[C09]: r matches Ok(x) ==> x.0.start == old(self).v().pos() && x.0.end == final(self).v().end()
== fn parser::Parser::parse_optional_arguments
ens[C09]: r matches Ok((Some(x), _)) ==> x.start == old(self).v().pos() && x.end == final(self).v().end()
== fn parser::Parser::parse_arrow_function_parameters
ens[C09]: r matches Ok(x) ==> crate::sp::spans(x.1, old(self).v().pos(), final(self).v().end())
== fn parser::Parser::parse_declaration
ens[C09]: r matches Ok(Some(x)) ==> crate::sp::spans(x, old(self).v().pos(), final(self).v().end())
== fn parser::Parser::parse_declaration parser::Parser::parse_optional_variable_kind
ens[C09]: r is Ok ==> old(self).v().cur is Some
== fn parser::Parser::parse_function_body_stmt_list parser::Parser::parse_template_literal_parts
inv[C09]: self.v() != vx_l0 ==> vx_l0.cur is Some
lens[C09]: vx_l0.cur is Some
== fn parser::Parser::parse_postfix_update_expr parser::Parser::parse_expr_sequence
req[C09]: !old(self).v().stale
== fn ast::ExprThis::new
ens: crate::vx::into_rel::<S, Span>(span, r.span)
== fn parser::Parser::parse_conditional_expr_or_arrow_function
req[C09]: old(self).v().cur is Some
== fn parser::Parser::normalize_left_side_assignment
ens[C09]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> crate::sp::spans(x, e.span.start as int, final(self).v().end()))
== fn ast::Program::new
ens: crate::sp::prog_span(r) == stmt_list.span && (r is Module <==> source_type == crate::fajt_ast::SourceType::Module)
== fn parser::Parse@Program::parse
ens[C09]: r matches Ok(p) ==> crate::sp::prog_span(p).start == old(parser).v().pos() && crate::sp::prog_span(p).end == final(parser).v().end()
ens[C08]: r is Ok ==> final(parser).v().cur is None
# the whole text is read
== fn parser::Parser::is_end
ens: r ==> self.v().cur is None
== fn parser::Parser::parse_all_stmts
lens: self.v().cur is None
ens: r is Ok ==> final(self).v().cur is None
== fn parser::Parser::parse_all_stmts
inv: self.v() == old(self).v() || self.v().moved(old(self).v())
ens: r is Ok && old(self).v().cur is Some ==> final(self).v().moved(old(self).v())
