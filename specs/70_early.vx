# written by tool/scripts/gentree.py early
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Expr>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_Expr(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Stmt>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_Stmt(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<MethodDefinition>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_MethodDefinition(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PropertyDefinition>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_PropertyDefinition(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentPattern>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_AssignmentPattern(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PatternOrExpr>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_PatternOrExpr(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<MemberProperty>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_MemberProperty(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<LitTemplate>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_LitTemplate(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<FormalParameters>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_FormalParameters(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ForInit>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ForInit(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingPattern>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_BindingPattern(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<VariableDeclaration>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_VariableDeclaration(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SwitchCase>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_SwitchCase(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameBinding>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_SingleNameBinding(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<SingleNameAssignmentProp>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_SingleNameAssignmentProp(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<PropertyName>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_PropertyName(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ObjectBinding>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ObjectBinding(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedBinding>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_NamedBinding(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<NamedAssignmentProp>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_NamedAssignmentProp(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ForDeclaration>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ForDeclaration(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ClassElement>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ClassElement(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<CatchClause>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_CatchClause(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Body>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_Body(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<BindingElement>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_BindingElement(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<AssignmentElement>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_AssignmentElement(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrowFunctionBody>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ArrowFunctionBody(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrayElement>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ArrayElement(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<ArrayBinding>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_ArrayBinding(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Argument>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_Argument(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<Stmt>>
ens[C12 .tree12]: r matches Ok(Some(x)) ==> crate::w12::wf_Stmt(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<ForInit>>
ens[C12 .tree12]: r matches Ok(Some(x)) ==> crate::w12::wf_ForInit(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Option<BindingPattern>>
ens[C12 .tree12]: r matches Ok(Some(x)) ==> crate::w12::wf_BindingPattern(x, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<Stmt>>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w12::wf_Stmt(#[trigger] x@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<VariableDeclaration>>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w12::wf_VariableDeclaration(#[trigger] x@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<SwitchCase>>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w12::wf_SwitchCase(#[trigger] x@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Vec<ClassElement>>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w12::wf_ClassElement(#[trigger] x@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(Span, Vec<Argument>)>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x.1@.len() ==> crate::w12::wf_Argument(#[trigger] x.1@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(Option<Span>, Vec<Argument>)>
ens[C12 .tree12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x.1@.len() ==> crate::w12::wf_Argument(#[trigger] x.1@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<(bool, FormalParameters)>
ens[C12 .tree12]: r matches Ok(x) ==> crate::w12::wf_FormalParameters(x.1, crate::w12::cx(old(self).context, old(self).source_type))
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
ens[C12 .tarrow12]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= old(self).v().pos())
== template crate=parser ; recv=mut ; type=Parser ; ret=Result<* ; except=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
ens[C12 .tarrow12]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= old(self).v().pos() && (e.span.start == old(self).v().pos() ==> crate::w12::wf_Expr(x, crate::w12::cx(old(self).context, old(self).source_type))))
== template crate=parser ; recv=mut ; type=Parser
begin[C12]: broadcast use crate::w12::group_tree;
lbegin[C12] *: broadcast use crate::w12::group_tree;
== template crate=parser ; recv=mut ; type=Parser ; except=Result<Stmt>|Result<Option<Stmt>>|Result<Vec<Stmt>>|Result<CatchClause>|Result<SwitchCase>|Result<Vec<SwitchCase>>|Result<ForInit>|Result<Option<ForInit>>|Result<ForDeclaration>|Result<VariableDeclaration>|Result<Vec<VariableDeclaration>>|Result<Vec<LitString>>|Result<Vec<NamedImport>>|Result<Vec<NamedExport>>|Result<ImportClause>|Result<NamedImport>|Result<NamedExport>|Result<Program>
begin[C12 .mp]: broadcast use crate::ps::lemma_moved_pos;
lbegin[C12 .mp] *: broadcast use crate::ps::lemma_moved_pos;
== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method
untag: .mp
== template crate=parser ; recv=mut ; type=Parser ; mentions=Identifier|Literal|consume_literal|parse_literal|parse_template_literal_parts|parse_non_substitution_template
begin[C12 .lt]: broadcast use crate::ps::lemma_lit_toks;
lbegin[C12 .lt] *: broadcast use crate::ps::lemma_lit_toks;
== fn parser::Parser::parse_call_expr
req[C12]: crate::w12::wf_Expr(callee, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_tagged_template
req[C12]: crate::w12::wf_Expr(callee, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_member_expr_right_side
req[C12]: crate::w12::wf_MemberObject(left, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_optional_expr
req[C12]: crate::w12::wf_Expr(left, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_optional_call_expr
req[C12]: crate::w12::wf_Expr(callee, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_optional_member_expr
req[C12]: crate::w12::wf_Expr(object, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_assignment
req[C12]: crate::w12::wf_PatternOrExpr(left, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_postfix_update_expr
req[C12]: crate::w12::wf_Expr(argument, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_recursive_call_expression
req[C12]: crate::w12::wf_Expr(previous_expr, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_expr_sequence
req[C12]: crate::w12::wf_Expr(initial_expr, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_for_in parser::Parser::parse_for_of
req[C12]: crate::w12::wf_ForDeclaration(left, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_named_property_definition
req[C12]: crate::w12::wf_PropertyName(name, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::normalize_left_side_assignment
req[C12]: crate::w12::wf_Expr(pattern_or_expr, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_expr_sequence
inv[C12]: (forall|i: int| 0 <= i < expr@.len() ==> crate::w12::wf_Expr(#[trigger] expr@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_arguments
inv[C12]: (forall|i: int| 0 <= i < arguments@.len() ==> crate::w12::wf_Argument(#[trigger] arguments@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_array_literal
inv[C12]: (forall|i: int| 0 <= i < elements@.len() ==> crate::w12::wf_ArrayElement(#[trigger] elements@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_object_literal
inv[C12]: (forall|i: int| 0 <= i < props@.len() ==> crate::w12::wf_PropertyDefinition(#[trigger] props@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_object_assignment_pattern
inv[C12]: (forall|i: int| 0 <= i < props@.len() ==> crate::w12::wf_AssignmentProp(#[trigger] props@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_object_binding_pattern
inv[C12]: (forall|i: int| 0 <= i < props@.len() ==> crate::w12::wf_ObjectBindingProp(#[trigger] props@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_formal_parameters
inv[C12]: (forall|i: int| 0 <= i < parameters@.len() ==> crate::w12::wf_BindingElement(#[trigger] parameters@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_function_body_stmt_list
inv[C12]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_Stmt(#[trigger] $out@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_block_stmt
inv[C12]: (forall|i: int| 0 <= i < statements@.len() ==> crate::w12::wf_Stmt(#[trigger] statements@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_all_stmts
inv[C12]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_Stmt(#[trigger] $out@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_case_block
inv[C12]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_SwitchCase(#[trigger] $out@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_switch_case_stmt_list
inv[C12]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_Stmt(#[trigger] $out@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_variable_declarations
inv[C12]: (forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_VariableDeclaration(#[trigger] $out@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_array_assignment_pattern
inv[C12]: forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i] matches Some(x) ==> crate::w12::wf_AssignmentElement(x, crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_array_binding_pattern
inv[C12]: forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i] matches Some(x) ==> crate::w12::wf_BindingElement(x, crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_array_assignment_pattern parser::Parser::parse_object_assignment_pattern
inv[C12]: crate::w12::rest_PatternOrExpr(rest, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_array_binding_pattern parser::Parser::parse_object_binding_pattern
inv[C12]: crate::w12::rest_BindingPattern(rest, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_formal_parameters
inv[C12]: crate::w12::rest_param(rest, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_optional_expr
inv[C12]: crate::w12::wf_Expr($out, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_recursive_call_expression
inv[C12]: crate::w12::wf_Expr($out, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_new_or_member_expr
inv[C12]: crate::w12::wf_Expr($out, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_recursive_binary_expr
inv[C12]: crate::w12::wf_Expr($out, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_template_literal_parts
req[C12]: (forall|i: int| 0 <= i < old(parts)@.len() ==> crate::w12::wf_TemplatePart(#[trigger] old(parts)@[i], crate::w12::cx(old(self).context, old(self).source_type)))
ens[C12]: r is Ok ==> (forall|i: int| 0 <= i < final(parts)@.len() ==> crate::w12::wf_TemplatePart(#[trigger] final(parts)@[i], crate::w12::cx(old(self).context, old(self).source_type)))
inv[C12]: (forall|i: int| 0 <= i < parts@.len() ==> crate::w12::wf_TemplatePart(#[trigger] parts@[i], crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::parse_literal
untag: .tree12
ens[C12]: r matches Ok(x) ==> (crate::ps::plain_tok(old(self).v().cur->Some_0.value) ==> crate::w12::wf_Expr(x, crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::consume_literal
req[C12]: crate::ps::plain_lit(literal)
== fn parser::Parser::parse_literal parser::Parser::consume_literal
begin[C12]: broadcast use crate::w12::lemma_plain_lit;
== fn parser::Parser::parse_identifier_name
untag: .tree12
== fn parser::Parser::parse_class_decl
ens[C12]: r matches Ok(x) ==> (forall|c: crate::w12::Cx| crate::w12::strict(c) == crate::w12::cx(old(self).context, old(self).source_type) ==> #[trigger] crate::w12::wf_Stmt(x, c))
== fn parser::Parser::parse_class_expr
ens[C12]: r matches Ok(x) ==> (forall|c: crate::w12::Cx| crate::w12::strict(c) == crate::w12::cx(old(self).context, old(self).source_type) ==> #[trigger] crate::w12::wf_Expr(x, c))
== fn parser::Parser::parse_class_decl parser::Parser::parse_class_expr
ens[C12]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start > old(self).v().pos())
== fn parser::Parser::parse_class_decl parser::Parser::parse_class_expr parser::Parser::parse_class_tail parser::Parser::parse_class_body parser::Parser::parse_class_element
req[C12]: old(self).context.is_strict
== fn parser::Parser::parse_class_body
inv[C12]: old(self).context.is_strict
== fn parser::Parser::parse_arrow_function
ens[C12]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == span_start
== fn parser::Parser::normalize_left_side_assignment
ens[C12]: r matches Ok(x) ==> crate::w12::wf_PatternOrExpr(x, crate::w12::cx(old(self).context, old(self).source_type))
ens[C12]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= start_token.span.start && (e.span.start == start_token.span.start ==> crate::w12::wf_Expr(x, crate::w12::cx(old(self).context, old(self).source_type))))
begin[C12]: broadcast use crate::w12::group_tree; broadcast use crate::ps::lemma_moved_pos;
== fn parser::Parser::consume_assert parser::Parser::consume parser::Parser::maybe_consume
ens[C12]: r matches Err(e) ==> !(e.kind is ArrowFunctionNotAllowed)
== fn parser::Parser::parse_conditional_expr_or_arrow_function
req[C12]: old(self).v().cur is Some
== fn parser::Parser::parse_arrow_function_expr
ens[C12]: old(self).v().cur is Some ==> (r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == old(self).v().pos())
== super parser::BindingPatternSemantics crate::w12::VxBind12
== fn parser::BindingPatternSemantics::get_bound_names
ens[C12]: crate::w12::texts(r@) =~= self.names12()
== fn parser::FormalParametersSemantics@FormalParameters::bound_names
inv[C12]: 0 <= vx_i1 <= self.bindings@.len() && crate::w12::texts(vx_acc2@) =~= crate::w12::bound(self.bindings@, vx_i1 as int)
== super parser::ExprSemantics crate::w12::VxExpr12
== super parser::FormalParametersSemantics crate::w12::VxParams12
== fn parser::ExprSemantics::is_assignment_target_type_simple
ens[C12]: r matches Ok(b) ==> b == self.simple12(context.is_strict)
== fn parser::ExprSemantics::early_errors_left_hand_side_expr parser::ExprSemantics::early_errors_update_expr_argument
ens[C12]: r is Ok ==> self.simple12(context.is_strict)
== fn parser::ExprSemantics::early_errors_unary_delete
ens[C12]: r is Ok ==> !(context.is_strict && self.bare12())
== fn parser::ExprSemantics@Expr::is_assignment_target_type_simple
begin[C12]: reveal(crate::w12::simple);
== fn parser::ExprSemantics@Expr::early_errors_unary_delete
begin[C12]: reveal(crate::w12::bare);
== fn parser::FormalParametersSemantics::is_simple
ens[C12]: r == self.simple12()
== fn parser::FormalParametersSemantics::bound_names
ens[C12]: crate::w12::texts(r@) =~= self.all12()
== fn parser::FormalParametersSemantics::early_errors_getter
ens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Get, Seq::empty())
== fn parser::FormalParametersSemantics::early_errors_method
ens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Method, body_directives@)
== fn parser::FormalParametersSemantics::early_errors_setter
ens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Set, body_directives@)
== fn parser::FormalParametersSemantics::early_errors_forbidden_use_strict
ens[C12]: r is Ok ==> (crate::w11::use_strict(body_directives@) ==> self.simple12())
== fn parser::FormalParametersSemantics@FormalParameters::early_errors_getter parser::FormalParametersSemantics@FormalParameters::early_errors_method parser::FormalParametersSemantics@FormalParameters::early_errors_setter
begin[C12]: reveal(crate::w12::params);
== fn parser::Parser::parse_function_expr_content
untag: .tree12 .tarrow12
begin[C12]: reveal(crate::w12::fn_expr);
req[C12]: !old(self).context.in_method && !old(self).context.super_call_allowed
ens[C12]: r matches Ok(x) ==> crate::w12::fn_expr(x, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_function_decl_content
untag: .tree12 .tarrow12
begin[C12]: reveal(crate::w12::fn_decl);
ens[C12]: r matches Ok(x) ==> crate::w12::fn_decl(x, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_method
untag: .tree12 .tarrow12
begin[C12]: reveal(crate::w12::fn_method); reveal(crate::w12::params);
ens[C12]: r matches Ok(x) ==> crate::w12::fn_method(x, name, crate::w12::cx(old(self).context, old(self).source_type)) && x.kind == kind && x.is_static == is_static && x.name == name && x.generator == old(self).context.is_yield && x.asynchronous == old(self).context.is_await
== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method
ens[C12]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start >= old(self).v().pos())
== fn parser::Parser::parse_method_definition parser::Parser::parse_generator_method parser::Parser::parse_getter_or_setter parser::Parser::parse_async_method
ens[C12]: r matches Ok(x) ==> crate::w12::wf_PropertyName(x.name, crate::w12::cx(old(self).context, old(self).source_type))
== fn parser::Parser::parse_method_definition
ens[C12]: r matches Ok(x) ==> (old(self).v().ctor() ==> crate::w12::is_ctor(x, crate::w12::cx(old(self).context, old(self).source_type)))
== fn parser::Parser::current_matches_identifier_or_literal
ens[C12]: value@ == "constructor"@ ==> (r ==> self.v().ctor())
== fn parser::Parser::parse_property_name
ens[C12]: r matches Ok(x) ==> (old(self).v().ctor() ==> (match x { crate::fajt_ast::PropertyName::Ident(i) => i.name@ == "constructor"@, crate::fajt_ast::PropertyName::String(s) => s.value@ == "constructor"@, _ => false }))
== fn parser::Parser::parse_identifier_name
begin[C12]: broadcast use crate::vx::axiom_into_string; broadcast use crate::vx::axiom_into_string_obeys;
ens[C12]: r matches Ok(x) ==> (old(self).v().cur matches Some(t) ==> (t.value matches crate::fajt_lexer::token::TokenValue::Identifier(s) ==> x.name@ == s@))
== fn parser::Parser::parse_property_name parser::Parser::parse_method_definition parser::Parser::parse_generator_method parser::Parser::parse_getter_or_setter parser::Parser::parse_async_method
ens[C12]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start > old(self).v().pos())
== fn parser::Parser::parse_identifier_name
ens[C12]: r matches Err(e) ==> !(e.kind is ArrowFunctionNotAllowed)
== fn parser::Parser::parse_class_element
untag: .tree12
ens[C12]: r matches Ok(x) ==> crate::w12::wf_ClassElement(x, crate::w12::cls(crate::w12::cx(old(self).context, old(self).source_type), has_super))
== fn parser::Parser::parse_class_body
untag: .tree12
ens[C12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> crate::w12::wf_ClassElement(#[trigger] x@[i], crate::w12::cls(crate::w12::cx(old(self).context, old(self).source_type), has_super)))
inv[C12]: forall|i: int| 0 <= i < $out@.len() ==> crate::w12::wf_ClassElement(#[trigger] $out@[i], crate::w12::cls(crate::w12::cx(old(self).context, old(self).source_type), has_super))
== fn parser::Parser::parse_class_tail
ens[C12]: r matches Ok(x) ==> (x.0 matches Some(y) ==> crate::w12::wf_Expr(*y, crate::w12::cx(old(self).context, old(self).source_type))) && (forall|i: int| 0 <= i < x.1@.len() ==> crate::w12::wf_ClassElement(#[trigger] x.1@[i], crate::w12::cls(crate::w12::cx(old(self).context, old(self).source_type), x.0 is Some)))
== fn parser::Parser::parse_await_expr
req[C12]: old(self).context.is_await
== fn parser::Parser::parse_yield_expr
req[C12]: old(self).context.is_yield
== fn parser::Parser::parse_import_declaration parser::Parser::parse_export_declaration parser::Parser::parse_module_import parser::Parser::parse_named_export parser::Parser::parse_namespace_export parser::Parser::parse_declaration_default_export parser::Parser::parse_default_export parser::Parser::parse_declaration_export parser::Parser::parse_varible_statement_export
req[C12]: old(self).source_type == crate::fajt_ast::SourceType::Module
== fn parser::FormalParametersSemantics@FormalParameters::is_simple
begin[C12]: reveal(crate::w12::simple_params);
inv[C12]: self.rest is None && 0 <= vx_i1 <= self.bindings@.len() && (forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] self.bindings@[i]).initializer is None && self.bindings@[i].pattern is Ident)
lbegin[C12]: reveal(crate::w12::simple_params);
== fn parser::get_first_duplicate
ens[C12]: r is Some <==> crate::vx::has_adjacent_dup(list@)
inv[C12]: iter.s == list && 0 <= iter.i <= list@.len() && (forall|i: int| 0 <= i < iter.i && i + 1 < list@.len() ==> #[trigger] list@[i]@ != list@[i + 1]@)
lens[C12]: forall|i: int| 0 <= i && i + 1 < list@.len() ==> #[trigger] list@[i]@ != list@[i + 1]@
== fn parser::FormalParametersSemantics@FormalParameters::early_errors_method
begin[C12]: broadcast use crate::vx::axiom_sorted_str; broadcast use crate::w12::lemma_dup; reveal(crate::w12::distinct);
== fn parser::Parser::parse_assignment
req[C12]: left is AssignmentPattern ==> operator is Assign
== fn parser::Parser::parse_this_expr parser::Parser::consume_literal parser::Parser::parse_literal parser::Parser::parse_parenthesized_expr parser::Parser::parse_array_literal parser::Parser::parse_object_literal parser::Parser::parse_function_expr parser::Parser::parse_class_expr parser::Parser::parse_async_function_expr parser::Parser::parse_regexp_literal parser::Parser::parse_template_literal_expr parser::Parser::parse_cover_parenthesized_and_arrow_parameters parser::Parser::parse_identifier_reference parser::Parser::parse_super_property parser::Parser::parse_new_target parser::Parser::parse_new_expr parser::Parser::parse_import_meta parser::Parser::parse_member_expr_right_side parser::Parser::parse_tagged_template parser::Parser::parse_member_expr_from_terminal parser::Parser::parse_primary_expr parser::Parser::parse_new_or_member_expr
ens[C12]: r matches Ok(x) ==> crate::w12::mem(x)
== fn parser::Parser::parse_super_call_expr parser::Parser::parse_import_call_expr parser::Parser::parse_call_expr parser::Parser::parse_recursive_call_expression
ens[C12]: r matches Ok(x) ==> crate::w12::callee(x)
== fn parser::Parser::parse_recursive_call_expression
req[C12]: crate::w12::callee(previous_expr)
inv[C12]: crate::w12::callee($out)
== fn parser::Parser::parse_new_or_member_expr
inv[C12]: crate::w12::mem($out)
== fn parser::Parser::parse_call_expr parser::Parser::parse_tagged_template
req[C12]: crate::w12::callee(callee)
== fn parser::Parser::parse_optional_expr
ens[C12]: r is Ok ==> (final(self).v().cur matches Some(t) ==> !crate::w12::template_tok(t.value))
lens[C12]: self.v().cur matches Some(t) ==> !crate::w12::template_tok(t.value)
== fn parser::Parser::validate_no_template_in_optional_chain
ens[C12]: r is Ok ==> !crate::w12::template_tok(token.value)
== fn parser::Parser::parse_non_substitution_template
begin[C12]: broadcast use crate::w12::lemma_all_text;
== fn parser::Parse::parse
ens[C12]: r matches Ok(x) ==> x.tree12(crate::w12::cx(old(parser).context, old(parser).source_type))
== fn parser::Parse@Program::parse
begin[C12]: broadcast use crate::w12::group_tree;
== fn parser::Parser::new
ens[C12]: r matches Ok(p) ==> crate::w12::cx(p.context, source_type) == crate::w12::none(source_type == crate::fajt_ast::SourceType::Module)
== fn parser::Parser::parse parser::parse
ens[C12]: r matches Ok(x) ==> x.tree12(crate::w12::none(source_type == crate::fajt_ast::SourceType::Module))
== fn parser::parse_script
ens[C12]: r matches Ok(p) ==> crate::w12::prog(p, crate::w12::none(false))
== fn parser::parse_module
ens[C12]: r matches Ok(p) ==> crate::w12::prog(p, crate::w12::none(true))
== fn parser::DirectivePrologueSemantics@&[LitString]::contains_strict
ens[C12]: r == crate::w11::use_strict(self@)
inv[C12]: $out == (exists|j: int| 0 <= j < vx_i1 && #[trigger] self@[j].value@ == "use strict"@) && 0 <= vx_i1 <= self@.len()
begin[C12]: reveal(crate::w11::use_strict);
lbegin[C12]: reveal(crate::w11::use_strict);
