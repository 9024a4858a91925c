# Automatic semicolon insertion
== fn parser::Parser::is_end
ens[C13]: r == self.eof()
== fn parser::Parser::can_insert_semicolon
ens[C13]: r == self.can_ins()
== fn parser::Parser::stmt_ended
ens[C13]: r == crate::asi::no_operand(self.v().cur)
== fn parser::Parser::consume_optional_semicolon
ens[C13]: r is Ok && old(self).v().at(crate::asi::SEMI()) ==> final(self).v().ate(old(self).v())
ens[C13]: r is Ok && !old(self).v().at(crate::asi::SEMI()) ==> final(self).v() == old(self).v() && old(self).can_ins()
ens[C13]: r is Err ==> old(self).v().at(crate::asi::SEMI()) || !old(self).can_ins()
ens[C13]: r is Ok ==> final(self).ended()
== fn parser::Parser::parse_variable_stmt parser::Parser::parse_break_stmt parser::Parser::parse_continue_stmt parser::Parser::parse_return_stmt parser::Parser::parse_throw_stmt parser::Parser::parse_debugger_stmt parser::Parser::parse_expr_stmt parser::Parser::parse_import_declaration parser::Parser::parse_named_export parser::Parser::parse_namespace_export parser::Parser::parse_varible_statement_export
ens[C13]: r is Ok ==> final(self).ended()
# an operand is read exactly where one may follow
== fn parser::Parser::parse_return_stmt
ens[C13]: r matches Ok(crate::fajt_ast::Stmt::Return(x)) ==> (x.argument is None <==> crate::asi::no_operand(old(self).v().nxt))
ens[C13]: r matches Ok(x) ==> x is Return
== fn parser::Parser::parse_break_stmt
ens[C13]: r matches Ok(crate::fajt_ast::Stmt::Break(x)) ==> (x.label is None <==> crate::asi::no_operand(old(self).v().nxt))
ens[C13]: r matches Ok(x) ==> x is Break
== fn parser::Parser::parse_continue_stmt
ens[C13]: r matches Ok(crate::fajt_ast::Stmt::Continue(x)) ==> (x.label is None <==> crate::asi::no_operand(old(self).v().nxt))
ens[C13]: r matches Ok(x) ==> x is Continue
== fn parser::Parser::parse_throw_stmt
ens[C13]: r is Ok ==> !crate::asi::no_operand(old(self).v().nxt) || crate::asi::val(old(self).v().nxt, crate::asi::CLOSE()) && !crate::asi::nl(old(self).v().nxt)
== fn parser::Parser::expr_ended
ens[C13]: r == crate::asi::no_more(self.v().cur)
== fn parser::Parser::parse_yield_expr
ens[C13]: r matches Ok(crate::fajt_ast::Expr::Yield(x)) ==> (x.argument is None <==> crate::asi::no_more(old(self).v().nxt)) && (x.delegate ==> crate::asi::val(old(self).v().nxt, crate::asi::STAR()) && !crate::asi::nl(old(self).v().nxt))
ens[C13]: r matches Ok(x) ==> x is Yield
# no line break before `=>`, before a postfix operator, behind `async`
== fn parser::Parser::parse_concise_body
req[C13]: old(self).v().lg.len() > 0 && old(self).v().lg.last().value == crate::asi::ARROW() && !old(self).v().lg.last().first_on_line
== fn parser::Parser::parse_postfix_update_expr
req[C13]: old(self).v().lg.len() > 0 && !old(self).v().lg.last().first_on_line
== fn parser::Parser::parse_cover_call_or_async_arrow_head parser::Parser::parse_async_method
req[C13]: !crate::asi::nl(old(self).v().nxt)
# (behind a rewind: the token was looked at before)
== fn parser::Parser::parse_async_arrow_function_expr
req[C13]: old(self).v().stale || !crate::asi::nl(old(self).v().nxt)
== fn parser::Parser::parse_assignment_expr_async
req[C13]: crate::asi::nl(old(self).v().nxt) ==> crate::asi::val(old(self).v().nxt, crate::asi::ARROW())
== fn parser::Parser::is_assignment_expr_async
ens[C13]: r && crate::asi::nl(self.v().nxt) ==> crate::asi::val(self.v().nxt, crate::asi::ARROW())
== fn parser::Parser::is_expr_stmt
ens[C13]: r matches Ok(b) ==> (self.v().at(crate::asi::ASYNC()) && self.v().nxt_at(crate::asi::FUNCTION()) ==> b == crate::asi::nl(self.v().nxt))
== fn lexer::Error::kind
ens[C13]: *r == self.kind
== fn parser::Parser::maybe_consume
ens[C13]: r is Err && value.plain() ==> old(self).v().at(*value)
ens[C13]: r matches Ok(b) ==> (!b ==> *final(self).reader == *old(self).reader)
== fn parser::Parser::parse_module_import
ens[C13]: r is Ok ==> final(self).ended()
