PRE = '''
/// what decides whether a piece of syntax is an early error
pub struct Cx { pub a: bool, pub y: bool, pub strict: bool, pub ret: bool, pub meth: bool, pub sup: bool, pub module: bool }
pub open spec fn cx(c: crate::fajt_parser::Context, s: SourceType) -> Cx { Cx { a: c.is_await, y: c.is_yield, strict: c.is_strict, ret: c.is_return, meth: c.in_method, sup: c.super_call_allowed, module: s == SourceType::Module } }
pub open spec fn none(module: bool) -> Cx { Cx { a: false, y: false, strict: false, ret: false, meth: false, sup: false, module: module } }
pub open spec fn strict(c: Cx) -> Cx { Cx { strict: true, ..c } }
/// inside a function, an arrow function, a method
pub open spec fn fun(c: Cx, a: bool, y: bool) -> Cx { Cx { a: a, y: y, meth: false, sup: false, ..c } }
pub open spec fn arrow(c: Cx, a: bool) -> Cx { Cx { a: a, y: false, ret: false, ..c } }
pub open spec fn ay(c: Cx, a: bool, y: bool) -> Cx { Cx { a: a, y: y, ..c } }
pub open spec fn meth(c: Cx, sup: bool) -> Cx { Cx { meth: true, sup: sup, ..c } }
/// the elements of a class; `sup`: the class has a super class
pub open spec fn cls(c: Cx, sup: bool) -> Cx { Cx { strict: true, sup: sup, ..c } }
pub open spec fn body(c: Cx, d: Seq<LitString>) -> Cx { Cx { strict: c.strict || crate::w11::use_strict(d), ret: true, ..c } }
pub open spec fn prog(p: Program, c: Cx) -> bool {
    match p {
        Program::Script(l) => stmts(l.body@, Cx { strict: c.strict || crate::w11::use_strict(l.directives@), ..c }),
        Program::Module(l) => stmts(l.body@, strict(c)),
    }
}
pub open spec fn stmts(s: Seq<Stmt>, c: Cx) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_Stmt(s[i], c) }
pub trait VxTree12 { spec fn tree12(self, c: Cx) -> bool; }
impl VxTree12 for Expr { open spec fn tree12(self, c: Cx) -> bool { wf_Expr(self, none(c.module)) } }
impl VxTree12 for Stmt { open spec fn tree12(self, c: Cx) -> bool { wf_Stmt(self, c) } }
impl VxTree12 for Program { open spec fn tree12(self, c: Cx) -> bool { prog(self, c) } }
/// the target of an assignment: a name or a member, in parentheses or not
#[verifier::opaque]
pub open spec fn simple(e: Expr, strict: bool) -> bool
    decreases e,
{
    match e {
        Expr::IdentRef(i) => !(strict && (i.name@ == "arguments"@ || i.name@ == "eval"@)),
        Expr::Member(_) => true,
        Expr::Parenthesized(p) => simple(*p.expression, strict),
        _ => false,
    }
}
/// a name, in parentheses or not
#[verifier::opaque]
pub open spec fn bare(e: Expr) -> bool
    decreases e,
{
    match e { Expr::IdentRef(_) => true, Expr::Parenthesized(p) => bare(*p.expression), _ => false }
}
/// what `new` may have behind it, what a call, a member access and a template may have in front of them
pub open spec fn mem(e: Expr) -> bool { e is Class || e is Function || e is IdentRef || e is Literal || e is Member || e is MetaProperty || e is New || e is Parenthesized || e is TaggedTemplate || e is This }
pub open spec fn callee(e: Expr) -> bool { mem(e) || e is Call }
/// the bound names of parameters (names inside of patterns are not looked at, see DESIGN.md)
pub open spec fn names(p: BindingPattern) -> Seq<Seq<char>> { match p { BindingPattern::Ident(i) => seq![i.name@], _ => Seq::empty() } }
pub open spec fn bound(s: Seq<BindingElement>, n: int) -> Seq<Seq<char>>
    decreases n,
{ if n <= 0 { Seq::empty() } else { bound(s, n - 1) + names(s[n - 1].pattern) } }
pub open spec fn texts(a: Seq<&str>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| a[i]@) }
pub open spec fn dup(s: Seq<Seq<char>>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && s[i] == s[j] }
pub broadcast proof fn lemma_dup(a: Seq<&str>)
    ensures #[trigger] crate::vx::has_dup(a) == dup(texts(a)),
{
    let t = texts(a);
    if dup(t) { let (i, j) = choose|i: int, j: int| 0 <= i < j < t.len() && t[i] == t[j]; assert(0 <= i < j < a.len() && a[i]@ == a[j]@); }
    if crate::vx::has_dup(a) { let (i, j) = choose|i: int, j: int| 0 <= i < j < a.len() && a[i]@ == a[j]@; assert(0 <= i < j < t.len() && t[i] == t[j]); }
}
pub open spec fn all_bound(p: FormalParameters) -> Seq<Seq<char>> {
    if p.rest is Some { bound(p.bindings@, p.bindings@.len() as int) + names(*p.rest->Some_0) } else { bound(p.bindings@, p.bindings@.len() as int) }
}
#[verifier::opaque]
pub open spec fn distinct(p: FormalParameters) -> bool { !dup(all_bound(p)) }
#[verifier::opaque]
pub open spec fn simple_params(p: FormalParameters) -> bool { p.rest is None && forall|i: int| 0 <= i < p.bindings@.len() ==> (#[trigger] p.bindings@[i]).initializer is None && p.bindings@[i].pattern is Ident }
/// the parameters of a method, a getter, a setter
#[verifier::opaque]
pub open spec fn params(k: MethodKind, p: FormalParameters, d: Seq<LitString>) -> bool {
    match k {
        MethodKind::Get => p.bindings@.len() == 0 && p.rest is None,
        MethodKind::Set => p.bindings@.len() == 1 && p.rest is None && (crate::w11::use_strict(d) ==> simple_params(p)),
        MethodKind::Method => distinct(p) && (crate::w11::use_strict(d) ==> simple_params(p)),
    }
}
pub open spec fn is_ctor(m: MethodDefinition, c: Cx) -> bool {
    m.kind is Method && !m.is_static && m.generator == c.y && m.asynchronous == c.a && (match m.name { PropertyName::Ident(i) => i.name@ == "constructor"@, PropertyName::String(s) => s.value@ == "constructor"@, _ => false })
}
'''
EXTRA = ["lemma_fn_expr", "lemma_fn_expr_mem", "lemma_fn_decl", "lemma_fn_method"]
LOCAL.update({
    "ExprYield": "c.y", "ExprAwait": "c.a", "ExprUpdate": "simple(*x.argument, c.strict)",
    "ExprUnary": "(x.operator is Delete && c.strict ==> !bare(*x.argument))",
    "ExprAssignment": "(*x.left is AssignmentPattern ==> x.operator is Assign)" , "PatternOrExpr.Expr": "simple(y, c.strict)", "ForDeclaration.Expr": "simple(*y, c.strict)",
    "MemberObject.Super": "c.meth", "MemberObject.Expr": "callee(*y)", "Callee.Super": "c.sup", "Callee.Expr": "callee(*y)",
    "ExprTaggedTemplate": "callee(*x.callee)", "ExprNew": "mem(*x.callee)",
    "StmtReturn": "c.ret", "StmtTry": "(x.handler is Some || x.finalizer is Some)", "VariableDeclaration": "(x.pattern is Ident || x.initializer is Some)",
    "Stmt.ImportDecl": "c.module", "Stmt.ExportDecl": "c.module",
    "MethodDefinition": "params(x.kind, x.parameters, x.body.directives@)",
})
for f in ("parameters", "body"):
    for t in ("ExprFunction", "DeclFunction"): CTX[t + "." + f] = "fun(c, x.asynchronous, x.generator)"
CTX["ExprArrowFunction.body"] = "arrow(c, x.asynchronous)"
CTX["Body.statements"] = "body(c, x.directives@)"
CTX["MethodDefinition.name"] = None
CTX["MethodDefinition.parameters"] = "ay(c, x.asynchronous, false)"
CTX["MethodDefinition.body"] = "ay(c, x.asynchronous, x.generator)"
for t in ("DeclClass", "ExprClass"):
    CTX[t + ".super_class"] = "strict(c)"; CTX[t + ".body"] = "cls(c, x.super_class is Some)"
# the methods of a class: `super` as a property, and as a call in the constructor of a class with a super class
CTX["ClassElement.Method"] = "=((wf_MethodDefinition(y, meth(c, false)) && wf_PropertyName(y.name, meth(c, false))) || (c.sup && is_ctor(y, c) && wf_MethodDefinition(y, meth(c, true))))"
CTX["PropertyDefinition.Method"] = "=(wf_MethodDefinition(y, meth(c, false)) && (wf_PropertyName(y.name, c) || wf_PropertyName(y.name, meth(c, false))))"
PRE += '''
pub broadcast proof fn lemma_plain_lit(l: Literal, c: Cx)
    requires crate::ps::plain_lit(l),
    ensures #[trigger] wf_Literal(l, c),
{
    broadcast use group_tree;
    reveal(crate::ps::all_text);
    if l is Template { let t = l->Template_0; assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)); } }
    match l { Literal::Null => { assert(wf_Literal(Literal::Null, c)); } Literal::Boolean(y) => { assert(wf_Literal(Literal::Boolean(y), c)); } Literal::String(y) => { assert(wf_Literal(Literal::String(y), c)); } Literal::Number(y) => { assert(wf_Literal(Literal::Number(y), c)); } Literal::Regexp(y) => { assert(wf_Literal(Literal::Regexp(y), c)); } Literal::Template(y) => { assert(wf_LitTemplate(y, c)); assert(wf_Literal(Literal::Template(y), c)); } _ => {} }
}
/// a function as parsed under its own context `k`
#[verifier::opaque]
pub open spec fn fn_expr(x: Expr, k: Cx) -> bool { x is Function && x->Function_0.asynchronous == k.a && x->Function_0.generator == k.y && !k.meth && !k.sup && wf_ExprFunction(x->Function_0, k) }
#[verifier::opaque]
pub open spec fn fn_decl(x: Stmt, k: Cx) -> bool { x is FunctionDecl && { let f = x->FunctionDecl_0; f.asynchronous == k.a && f.generator == k.y && wf_FormalParameters(f.parameters, k) && wf_Body(f.body, k) } }
#[verifier::opaque]
pub open spec fn fn_method(x: MethodDefinition, n: PropertyName, k: Cx) -> bool { x.name == n && x.asynchronous == k.a && x.generator == k.y && wf_FormalParameters(x.parameters, ay(k, k.a, false)) && wf_Body(x.body, k) && params(x.kind, x.parameters, x.body.directives@) }
pub broadcast proof fn lemma_fn_expr(x: Expr, k: Cx, c: Cx)
    requires #[trigger] fn_expr(x, k), k == fun(c, k.a, k.y),
    ensures #[trigger] wf_Expr(x, c),
{ reveal(fn_expr); let f = x->Function_0; d_ExprFunction(f, k); d_ExprFunction(f, c); d_Expr_Function(f, c); assert(fun(k, k.a, k.y) == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_expr_mem(x: Expr, k: Cx)
    requires #[trigger] fn_expr(x, k),
    ensures mem(x),
{ reveal(fn_expr); }
pub broadcast proof fn lemma_fn_decl(x: Stmt, k: Cx, c: Cx)
    requires #[trigger] fn_decl(x, k), k == fun(c, k.a, k.y),
    ensures #[trigger] wf_Stmt(x, c),
{ reveal(fn_decl); let f = x->FunctionDecl_0; d_DeclFunction(f, c); d_Stmt_FunctionDecl(f, c); assert(k == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_method(x: MethodDefinition, n: PropertyName, k: Cx, c: Cx)
    requires #[trigger] fn_method(x, n, k), k == ay(c, k.a, k.y),
    ensures #[trigger] wf_MethodDefinition(x, c),
{ reveal(fn_method); d_MethodDefinition(x, c); assert(k == ay(c, k.a, k.y)); assert(ay(k, k.a, false) == ay(c, k.a, false)); }
pub broadcast proof fn lemma_all_text(t: LitTemplate, c: Cx)
    requires crate::ps::all_text(t),
    ensures #[trigger] wf_LitTemplate(t, c),
{ reveal(crate::ps::all_text); assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)) by { reveal(wf_TemplatePart); } }; assert(wf_LitTemplate(t, c)) by { reveal(wf_LitTemplate); reveal(wf_TemplatePart); } }
'''
W = "crate::w12::"
S = "parser::ExprSemantics::"
Q = "parser::FormalParametersSemantics::"
ALLFN = lambda s: " ".join("parser::Parser::" + n for n in s.split())
FNS = ["== super parser::BindingPatternSemantics crate::w12::VxBind12", "== fn parser::BindingPatternSemantics::get_bound_names\nens[C12]: crate::w12::texts(r@) =~= self.names12()", "== fn parser::FormalParametersSemantics@FormalParameters::bound_names\ninv[C12]: 0 <= vx_i1 <= self.bindings@.len() && crate::w12::texts(vx_acc2@) =~= crate::w12::bound(self.bindings@, vx_i1 as int)", "== super parser::ExprSemantics crate::w12::VxExpr12", "== super parser::FormalParametersSemantics crate::w12::VxParams12",
"== fn %sis_assignment_target_type_simple\nens[C12]: r matches Ok(b) ==> b == self.simple12(context.is_strict)" % S,
"== fn %searly_errors_left_hand_side_expr %searly_errors_update_expr_argument\nens[C12]: r is Ok ==> self.simple12(context.is_strict)" % (S, S),
"== fn %searly_errors_unary_delete\nens[C12]: r is Ok ==> !(context.is_strict && self.bare12())" % S,
"== fn parser::ExprSemantics@Expr::is_assignment_target_type_simple\nbegin[C12]: reveal(crate::w12::simple);",
"== fn parser::ExprSemantics@Expr::early_errors_unary_delete\nbegin[C12]: reveal(crate::w12::bare);",
"== fn %sis_simple\nens[C12]: r == self.simple12()" % Q,
"== fn %sbound_names\nens[C12]: crate::w12::texts(r@) =~= self.all12()" % Q,
"== fn %searly_errors_getter\nens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Get, Seq::empty())" % Q,
"== fn %searly_errors_method\nens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Method, body_directives@)" % Q,
"== fn %searly_errors_setter\nens[C12]: r is Ok ==> self.params12(crate::fajt_ast::MethodKind::Set, body_directives@)" % Q,
"== fn %searly_errors_forbidden_use_strict\nens[C12]: r is Ok ==> (crate::w11::use_strict(body_directives@) ==> self.simple12())" % Q,
"== fn " + " ".join("parser::FormalParametersSemantics@FormalParameters::early_errors_" + k for k in ("getter", "method", "setter")) + "\nbegin[C12]: reveal(crate::w12::params);",
"== fn parser::Parser::parse_function_expr_content\nuntag: .tree12 .tarrow12\nbegin[C12]: reveal(crate::w12::fn_expr);\nreq[C12]: !old(self).context.in_method && !old(self).context.super_call_allowed\nens[C12]: r matches Ok(x) ==> %sfn_expr(x, %s)" % (W, CX_ if 0 else "crate::w12::cx(old(self).context, old(self).source_type)"),
]
CXE = "crate::w12::cx(old(self).context, old(self).source_type)"
FNS += [
"== fn parser::Parser::parse_function_decl_content\nuntag: .tree12 .tarrow12\nbegin[C12]: reveal(crate::w12::fn_decl);\nens[C12]: r matches Ok(x) ==> %sfn_decl(x, %s)" % (W, CXE),
"== fn parser::Parser::parse_method\nuntag: .tree12 .tarrow12\nbegin[C12]: reveal(crate::w12::fn_method); reveal(crate::w12::params);\nens[C12]: r matches Ok(x) ==> %sfn_method(x, name, %s) && x.kind == kind && x.is_static == is_static && x.name == name && x.generator == old(self).context.is_yield && x.asynchronous == old(self).context.is_await" % (W, CXE),
"== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method\nens[C12]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start >= old(self).v().pos())",
"== fn " + ALLFN("parse_method_definition parse_generator_method parse_getter_or_setter parse_async_method") + "\nens[C12]: r matches Ok(x) ==> %swf_PropertyName(x.name, %s)" % (W, CXE),
"== fn parser::Parser::parse_method_definition\nens[C12]: r matches Ok(x) ==> (old(self).v().ctor() ==> %sis_ctor(x, %s))" % (W, CXE),
"== fn parser::Parser::current_matches_identifier_or_literal\nens[C12]: value@ == \"constructor\"@ ==> (r ==> self.v().ctor())",
"== fn parser::Parser::parse_property_name\nens[C12]: r matches Ok(x) ==> (old(self).v().ctor() ==> (match x { crate::fajt_ast::PropertyName::Ident(i) => i.name@ == \"constructor\"@, crate::fajt_ast::PropertyName::String(s) => s.value@ == \"constructor\"@, _ => false }))",
"== fn parser::Parser::parse_identifier_name\nbegin[C12]: broadcast use crate::vx::axiom_into_string; broadcast use crate::vx::axiom_into_string_obeys;\nens[C12]: r matches Ok(x) ==> (old(self).v().cur matches Some(t) ==> (t.value matches crate::fajt_lexer::token::TokenValue::Identifier(s) ==> x.name@ == s@))",
"== fn " + ALLFN("parse_property_name parse_method_definition parse_generator_method parse_getter_or_setter parse_async_method") + "\nens[C12]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start > old(self).v().pos())",
"== fn parser::Parser::parse_identifier_name\nens[C12]: r matches Err(e) ==> !(e.kind is ArrowFunctionNotAllowed)",
"== fn parser::Parser::parse_class_element\nuntag: .tree12\nens[C12]: r matches Ok(x) ==> %swf_ClassElement(x, %scls(%s, has_super))" % (W, W, CXE),
"== fn parser::Parser::parse_class_body\nuntag: .tree12\nens[C12]: r matches Ok(x) ==> (forall|i: int| 0 <= i < x@.len() ==> %swf_ClassElement(#[trigger] x@[i], %scls(%s, has_super)))\ninv[C12]: forall|i: int| 0 <= i < $out@.len() ==> %swf_ClassElement(#[trigger] $out@[i], %scls(%s, has_super))" % (W, W, CXE, W, W, CXE),
"== fn parser::Parser::parse_class_tail\nens[C12]: r matches Ok(x) ==> (x.0 matches Some(y) ==> %swf_Expr(*y, %s)) && (forall|i: int| 0 <= i < x.1@.len() ==> %swf_ClassElement(#[trigger] x.1@[i], %scls(%s, x.0 is Some)))" % (W, CXE, W, W, CXE),
"== fn parser::Parser::parse_await_expr\nreq[C12]: old(self).context.is_await",
"== fn parser::Parser::parse_yield_expr\nreq[C12]: old(self).context.is_yield",
"== fn " + ALLFN("parse_import_declaration parse_export_declaration parse_module_import parse_named_export parse_namespace_export parse_declaration_default_export parse_default_export parse_declaration_export parse_varible_statement_export") + "\nreq[C12]: old(self).source_type == crate::fajt_ast::SourceType::Module",
"== fn parser::FormalParametersSemantics@FormalParameters::is_simple\nbegin[C12]: reveal(crate::w12::simple_params);\ninv[C12]: self.rest is None && 0 <= vx_i1 <= self.bindings@.len() && (forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] self.bindings@[i]).initializer is None && self.bindings@[i].pattern is Ident)\nlbegin[C12]: reveal(crate::w12::simple_params);",
"== fn parser::get_first_duplicate\nens[C12]: r is Some <==> crate::vx::has_adjacent_dup(list@)\ninv[C12]: iter.s == list && 0 <= iter.i <= list@.len() && (forall|i: int| 0 <= i < iter.i && i + 1 < list@.len() ==> #[trigger] list@[i]@ != list@[i + 1]@)\nlens[C12]: forall|i: int| 0 <= i && i + 1 < list@.len() ==> #[trigger] list@[i]@ != list@[i + 1]@",
"== fn parser::FormalParametersSemantics@FormalParameters::early_errors_method\nbegin[C12]: broadcast use crate::vx::axiom_sorted_str; broadcast use crate::w12::lemma_dup; reveal(crate::w12::distinct);",
"== fn parser::Parser::parse_assignment\nreq[C12]: left is AssignmentPattern ==> operator is Assign",
"== fn " + ALLFN("parse_this_expr consume_literal parse_literal parse_parenthesized_expr parse_array_literal parse_object_literal parse_function_expr parse_class_expr parse_async_function_expr parse_regexp_literal parse_template_literal_expr parse_cover_parenthesized_and_arrow_parameters parse_identifier_reference parse_super_property parse_new_target parse_new_expr parse_import_meta parse_member_expr_right_side parse_tagged_template parse_member_expr_from_terminal parse_primary_expr parse_new_or_member_expr") + "\nens[C12]: r matches Ok(x) ==> %smem(x)" % W,
"== fn " + ALLFN("parse_super_call_expr parse_import_call_expr parse_call_expr parse_recursive_call_expression") + "\nens[C12]: r matches Ok(x) ==> %scallee(x)" % W,
"== fn " + ALLFN("parse_recursive_call_expression") + "\nreq[C12]: %scallee(previous_expr)\ninv[C12]: %scallee($out)" % (W, W),
"== fn " + ALLFN("parse_new_or_member_expr") + "\ninv[C12]: %smem($out)" % W,
"== fn " + ALLFN("parse_call_expr parse_tagged_template") + "\nreq[C12]: %scallee(callee)" % W,
"== fn parser::Parser::parse_optional_expr\nens[C12]: r is Ok ==> (final(self).v().cur matches Some(t) ==> !%stemplate_tok(t.value))\nlens[C12]: self.v().cur matches Some(t) ==> !%stemplate_tok(t.value)" % (W, W),
"== fn parser::Parser::validate_no_template_in_optional_chain\nens[C12]: r is Ok ==> !%stemplate_tok(token.value)" % W,
"== fn parser::Parser::parse_non_substitution_template\nbegin[C12]: broadcast use crate::w12::lemma_all_text;",
"== fn parser::Parse::parse\nens[C12]: r matches Ok(x) ==> x.tree12(crate::w12::cx(old(parser).context, old(parser).source_type))",
"== fn parser::Parse@Program::parse\nbegin[C12]: broadcast use crate::w12::group_tree;",
"== fn parser::Parser::new\nens[C12]: r matches Ok(p) ==> crate::w12::cx(p.context, source_type) == crate::w12::none(source_type == crate::fajt_ast::SourceType::Module)",
"== fn parser::Parser::parse parser::parse\nens[C12]: r matches Ok(x) ==> x.tree12(crate::w12::none(source_type == crate::fajt_ast::SourceType::Module))",
"== fn parser::parse_script\nens[C12]: r matches Ok(p) ==> crate::w12::prog(p, crate::w12::none(false))",
"== fn parser::parse_module\nens[C12]: r matches Ok(p) ==> crate::w12::prog(p, crate::w12::none(true))",
"== fn parser::DirectivePrologueSemantics@&[LitString]::contains_strict\nens[C12]: r == crate::w11::use_strict(self@)\ninv[C12]: $out == (exists|j: int| 0 <= j < vx_i1 && #[trigger] self@[j].value@ == \"use strict\"@) && 0 <= vx_i1 <= self@.len()\nbegin[C12]: reveal(crate::w11::use_strict);\nlbegin[C12]: reveal(crate::w11::use_strict);",
]
PRE += '''
pub trait VxExpr12 { spec fn simple12(&self, strict: bool) -> bool; spec fn bare12(&self) -> bool; }
impl VxExpr12 for Expr { open spec fn simple12(&self, strict: bool) -> bool { simple(*self, strict) } open spec fn bare12(&self) -> bool { bare(*self) } }
pub trait VxParams12 { spec fn simple12(&self) -> bool; spec fn all12(&self) -> Seq<Seq<char>>; spec fn params12(&self, k: MethodKind, d: Seq<LitString>) -> bool; }
impl VxParams12 for FormalParameters { open spec fn simple12(&self) -> bool { simple_params(*self) } open spec fn all12(&self) -> Seq<Seq<char>> { all_bound(*self) } open spec fn params12(&self, k: MethodKind, d: Seq<LitString>) -> bool { params(k, *self, d) } }
pub trait VxBind12 { spec fn names12(&self) -> Seq<Seq<char>>; }
impl VxBind12 for BindingPattern { open spec fn names12(&self) -> Seq<Seq<char>> { names(*self) } }
pub open spec fn template_tok(v: TokenValue) -> bool { v is TemplateHead || (v matches TokenValue::Literal(l) && l is Template) }
'''
