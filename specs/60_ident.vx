# written by tool/scripts/gentree.py ident
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Expr>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_Expr(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Stmt>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_Stmt(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<MethodDefinition>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_MethodDefinition(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Ident>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_Ident(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PropertyDefinition>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_PropertyDefinition(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentPattern>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_AssignmentPattern(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PatternOrExpr>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_PatternOrExpr(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<MemberProperty>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_MemberProperty(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<LitTemplate>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_LitTemplate(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<FormalParameters>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_FormalParameters(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ForInit>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ForInit(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingPattern>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_BindingPattern(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<VariableDeclaration>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_VariableDeclaration(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SwitchCase>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_SwitchCase(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameBinding>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_SingleNameBinding(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameAssignmentProp>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_SingleNameAssignmentProp(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PropertyName>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_PropertyName(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ObjectBinding>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ObjectBinding(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedImport>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_NamedImport(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedExport>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_NamedExport(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedBinding>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_NamedBinding(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedAssignmentProp>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_NamedAssignmentProp(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ForDeclaration>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ForDeclaration(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ClassElement>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ClassElement(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<CatchClause>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_CatchClause(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Body>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_Body(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingElement>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_BindingElement(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentElement>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_AssignmentElement(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrowFunctionBody>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ArrowFunctionBody(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrayElement>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ArrayElement(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrayBinding>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_ArrayBinding(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Argument>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_Argument(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<Stmt>>
ens[C11 .tree]: r matches Ok(Some(x)) ==> crate::w11::wf_Stmt(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<ForInit>>
ens[C11 .tree]: r matches Ok(Some(x)) ==> crate::w11::wf_ForInit(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<BindingPattern>>
ens[C11 .tree]: r matches Ok(Some(x)) ==> crate::w11::wf_BindingPattern(x, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<Stmt>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_Stmt(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<VariableDeclaration>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_VariableDeclaration(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<SwitchCase>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_SwitchCase(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<NamedImport>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_NamedImport(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<NamedExport>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_NamedExport(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<ClassElement>>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w11::wf_ClassElement(#[trigger] x@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(Span, Vec<Argument>)>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x.1@.len() ==> crate::w11::wf_Argument(#[trigger] x.1@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(Option<Span>, Vec<Argument>)>
ens[C11 .tree]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x.1@.len() ==> crate::w11::wf_Argument(#[trigger] x.1@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(bool, FormalParameters)>
ens[C11 .tree]: r matches Ok(x) ==> crate::w11::wf_FormalParameters(x.1, crate::w11::cx(old(self).context))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(Option<Box<Expr>>, Vec<ClassElement>)>
ens[C11 .tree]: r matches Ok(x) ==> (x.0 matches Some(y) ==> crate::w11::wf_Expr(*y, crate::w11::cx(old(self).context))) && (forall|i: int| 0 <= i < x.1@.len() ==> crate::w11::wf_ClassElement(#[trigger] x.1@[i], crate::w11::cx(old(self).context)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ImportClause>
ens[C11 .tree]: r matches Ok(x) ==> (x.default_binding matches Some(y) ==> crate::w11::wf_Ident(y, crate::w11::cx(old(self).context))) && (x.namespace_binding matches Some(y) ==> crate::w11::wf_Ident(y, crate::w11::cx(old(self).context))) && (x.named_imports matches Some(y) ==> (forall|i: int| 0 <= i < y@.len() ==> crate::w11::wf_NamedImport(#[trigger] y@[i], crate::w11::cx(old(self).context))))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
ens[C11 .tarrow]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= old(self).v().pos())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<* ; except=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
ens[C11 .tarrow]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= old(self).v().pos() && (e.span.start == old(self).v().pos() ==> crate::w11::wf_Expr(x, crate::w11::cx(old(self).context))))
== template crate=parser ; recv=mut ; type=Parser
begin[C11]: broadcast use crate::w11::group_tree;
lbegin[C11] *: broadcast use crate::w11::group_tree;
== template crate=parser ; recv=mut ; type=Parser ; except=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
begin[C11 .mp]: broadcast use crate::ps::lemma_moved_pos;
lbegin[C11 .mp] *: broadcast use crate::ps::lemma_moved_pos;
== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method
untag: .mp
== template crate=parser ; recv=mut ; type=Parser ; mentions=Identifier|Literal|consume_literal|parse_literal|parse_template_literal_parts|parse_non_substitution_template
begin[C11 .lt]: broadcast use crate::ps::lemma_lit_toks;
lbegin[C11 .lt] *: broadcast use crate::ps::lemma_lit_toks;
== fn parser::Parser::parse_call_expr
req[C11]: crate::w11::wf_Expr(callee, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_tagged_template
req[C11]: crate::w11::wf_Expr(callee, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_member_expr_right_side
req[C11]: crate::w11::wf_MemberObject(left, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_optional_expr
req[C11]: crate::w11::wf_Expr(left, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_optional_call_expr
req[C11]: crate::w11::wf_Expr(callee, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_optional_member_expr
req[C11]: crate::w11::wf_Expr(object, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_assignment
req[C11]: crate::w11::wf_PatternOrExpr(left, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_postfix_update_expr
req[C11]: crate::w11::wf_Expr(argument, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_recursive_call_expression
req[C11]: crate::w11::wf_Expr(previous_expr, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_expr_sequence
req[C11]: crate::w11::wf_Expr(initial_expr, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_for_in parser::Parser::parse_for_of
req[C11]: crate::w11::wf_ForDeclaration(left, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_named_property_definition
req[C11]: crate::w11::wf_PropertyName(name, crate::w11::cx(old(self).context))
== fn parser::Parser::normalize_left_side_assignment
req[C11]: crate::w11::wf_Expr(pattern_or_expr, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_expr_sequence
inv[C11]: (forall|i: int| 0 <= i < expr@.len() ==> crate::w11::wf_Expr(#[trigger] expr@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_arguments
inv[C11]: (forall|i: int| 0 <= i < arguments@.len() ==> crate::w11::wf_Argument(#[trigger] arguments@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_array_literal
inv[C11]: (forall|i: int| 0 <= i < elements@.len() ==> crate::w11::wf_ArrayElement(#[trigger] elements@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_object_literal
inv[C11]: (forall|i: int| 0 <= i < props@.len() ==> crate::w11::wf_PropertyDefinition(#[trigger] props@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_object_assignment_pattern
inv[C11]: (forall|i: int| 0 <= i < props@.len() ==> crate::w11::wf_AssignmentProp(#[trigger] props@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_object_binding_pattern
inv[C11]: (forall|i: int| 0 <= i < props@.len() ==> crate::w11::wf_ObjectBindingProp(#[trigger] props@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_formal_parameters
inv[C11]: (forall|i: int| 0 <= i < parameters@.len() ==> crate::w11::wf_BindingElement(#[trigger] parameters@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_function_body_stmt_list
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_Stmt(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_class_body
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_ClassElement(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_block_stmt
inv[C11]: (forall|i: int| 0 <= i < statements@.len() ==> crate::w11::wf_Stmt(#[trigger] statements@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_all_stmts
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_Stmt(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_case_block
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_SwitchCase(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_switch_case_stmt_list
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_Stmt(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_named_imports
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_NamedImport(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_named_exports
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_NamedExport(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_variable_declarations
inv[C11]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w11::wf_VariableDeclaration(#[trigger] $out@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_array_assignment_pattern
inv[C11]: forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i] matches Some(x) ==> crate::w11::wf_AssignmentElement(x, crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_array_binding_pattern
inv[C11]: forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i] matches Some(x) ==> crate::w11::wf_BindingElement(x, crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_array_assignment_pattern parser::Parser::parse_object_assignment_pattern
inv[C11]: crate::w11::rest_PatternOrExpr(rest, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_array_binding_pattern parser::Parser::parse_object_binding_pattern
inv[C11]: crate::w11::rest_BindingPattern(rest, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_formal_parameters
inv[C11]: crate::w11::rest_param(rest, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_optional_expr
inv[C11]: crate::w11::wf_Expr($out, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_recursive_call_expression
inv[C11]: crate::w11::wf_Expr($out, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_new_or_member_expr
inv[C11]: crate::w11::wf_Expr($out, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_recursive_binary_expr
inv[C11]: crate::w11::wf_Expr($out, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_template_literal_parts
req[C11]: (forall|i: int| 0 <= i < old(parts)@.len() ==> crate::w11::wf_TemplatePart(#[trigger] old(parts)@[i], crate::w11::cx(old(self).context)))
ens[C11]: r is Ok ==> (forall|i: int| 0 <= i < final(parts)@.len() ==> crate::w11::wf_TemplatePart(#[trigger] final(parts)@[i], crate::w11::cx(old(self).context)))
inv[C11]: (forall|i: int| 0 <= i < parts@.len() ==> crate::w11::wf_TemplatePart(#[trigger] parts@[i], crate::w11::cx(old(self).context)))
== fn parser::Parser::parse_literal
untag: .tree
ens[C11]: r matches Ok(x) ==> (crate::ps::plain_tok(old(self).v().cur->Some_0.value) ==> crate::w11::wf_Expr(x, crate::w11::cx(old(self).context)))
== fn parser::Parser::consume_literal
req[C11]: crate::ps::plain_lit(literal)
== fn parser::Parser::parse_literal parser::Parser::consume_literal
begin[C11]: broadcast use crate::w11::lemma_plain_lit;
== fn parser::Parser::parse_identifier_name
untag: .tree
== fn parser::Parser::parse_class_decl
ens[C11]: r matches Ok(x) ==> (forall|c: crate::w11::Cx| crate::w11::strict(c) == crate::w11::cx(old(self).context) ==> #[trigger] crate::w11::wf_Stmt(x, c))
== fn parser::Parser::parse_class_expr
ens[C11]: r matches Ok(x) ==> (forall|c: crate::w11::Cx| crate::w11::strict(c) == crate::w11::cx(old(self).context) ==> #[trigger] crate::w11::wf_Expr(x, c))
== fn parser::Parser::parse_class_decl parser::Parser::parse_class_expr
ens[C11]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start > old(self).v().pos())
== fn parser::Parser::parse_class_decl parser::Parser::parse_class_expr parser::Parser::parse_class_tail parser::Parser::parse_class_body parser::Parser::parse_class_element
req[C11]: old(self).context.is_strict
== fn parser::Parser::parse_class_body
inv[C11]: old(self).context.is_strict
== fn parser::Parser::parse_arrow_function
ens[C11]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == span_start
== fn parser::Parser::normalize_left_side_assignment
ens[C11]: r matches Ok(x) ==> crate::w11::wf_PatternOrExpr(x, crate::w11::cx(old(self).context))
ens[C11]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= start_token.span.start && (e.span.start == start_token.span.start ==> crate::w11::wf_Expr(x, crate::w11::cx(old(self).context))))
begin[C11]: broadcast use crate::w11::group_tree; broadcast use crate::ps::lemma_moved_pos;
== fn parser::Parser::consume_assert parser::Parser::consume parser::Parser::maybe_consume
ens[C11]: r matches Err(e) ==> !(e.kind is ArrowFunctionNotAllowed)
== fn parser::Parser::parse_conditional_expr_or_arrow_function
req[C11]: old(self).v().cur is Some
== fn parser::Parser::parse_arrow_function_expr
ens[C11]: old(self).v().cur is Some ==> (r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == old(self).v().pos())
== fn parser::Parser::parse_identifier
begin[C11]: broadcast use crate::w11::lemma_not_kw; broadcast use crate::w11::lemma_kw;
== fn parser::Parser::parse_function_identifier parser::Parser::parse_optional_class_identifier
begin[C11]: broadcast use crate::w11::lemma_empty;
== fn ast::Ident::dummy
ens[C11]: r.name@.len() == 0
begin[C11]: broadcast use crate::vx::axiom_into_string; broadcast use crate::vx::axiom_into_string_obeys; proof { reveal_strlit(""); }
== fn parser::Parser::parse_function_expr_content
untag: .tree .tarrow
begin[C11]: reveal(crate::w11::fn_expr);
ens[C11]: r matches Ok(x) ==> crate::w11::fn_expr(x, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_function_decl_content
untag: .tree .tarrow
begin[C11]: reveal(crate::w11::fn_decl);
ens[C11]: r matches Ok(x) ==> crate::w11::fn_decl(x, identifier, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_method
untag: .tree .tarrow
begin[C11]: reveal(crate::w11::fn_method);
ens[C11]: r matches Ok(x) ==> crate::w11::fn_method(x, name, crate::w11::cx(old(self).context))
== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method
ens[C11]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start >= old(self).v().pos())
== fn parser::DirectivePrologueSemantics@&[LitString]::contains_strict
ens[C11]: r == crate::w11::use_strict(self@)
inv[C11]: $out == (exists|j: int| 0 <= j < vx_i1 && #[trigger] self@[j].value@ == "use strict"@) && 0 <= vx_i1 <= self@.len()
begin[C11]: reveal(crate::w11::use_strict);
lbegin[C11]: reveal(crate::w11::use_strict);
== fn parser::Parser::parse_non_substitution_template
begin[C11]: broadcast use crate::w11::lemma_all_text;
== fn parser::Parser::parse_identifier_name
begin[C11]: reveal(crate::ps::id_tok);
ens[C11]: r matches Ok(x) ==> (old(self).v().cur matches Some(t) ==> (crate::ps::idc(t, old(self).context) ==> crate::w11::wf_Ident(x, crate::w11::cx(old(self).context))))
begin[C11]: broadcast use crate::w11::lemma_not_kw; broadcast use crate::w11::lemma_kw;
== fn ast::Stmt::unwrap_block_stmt
ens: self == crate::fajt_ast::Stmt::Block(r)
== super parser::Parse crate::w11::VxTree11
== fn ast::Program::new
ens: (source_type == crate::fajt_ast::SourceType::Module ==> r == crate::fajt_ast::Program::Module(stmt_list)) && (source_type != crate::fajt_ast::SourceType::Module ==> r == crate::fajt_ast::Program::Script(stmt_list))
== fn parser::Parse::parse
ens[C11]: r matches Ok(x) ==> x.tree11(crate::w11::cx(old(parser).context), old(parser).source_type == crate::fajt_ast::SourceType::Module)
== fn parser::Parse@Program::parse
begin[C11]: broadcast use crate::w11::group_tree;
== fn parser::Parser::new
ens[C11]: r matches Ok(p) ==> crate::w11::cx(p.context) == crate::w11::none()
== fn parser::Parser::parse parser::parse
ens[C11]: r matches Ok(x) ==> x.tree11(crate::w11::none(), source_type == crate::fajt_ast::SourceType::Module)
== fn parser::parse_script
ens[C11]: r matches Ok(p) ==> p is Script && crate::w11::prog(p, crate::w11::none())
== fn parser::parse_module
ens[C11]: r matches Ok(p) ==> p is Module && crate::w11::prog(p, crate::w11::none())
