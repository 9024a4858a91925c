// written by tool/scripts/gentree.py ident
verus! {
pub mod w11 {
use vstd::prelude::*;
use crate::vx::*;
use crate::fajt_ast::*;
use crate::fajt_lexer::token::*;
use crate::tables::*;


/// what decides whether a keyword may be an identifier
pub struct Cx { pub a: bool, pub y: bool, pub strict: bool }
pub open spec fn cx(c: crate::fajt_parser::Context) -> Cx { Cx { a: c.is_await, y: c.is_yield, strict: c.is_strict } }
/// an identifier is not a keyword, or one that may be an identifier here
#[verifier::opaque]
pub open spec fn wid(n: Seq<char>, c: Cx) -> bool { forall|k: Keyword| #[trigger] k.text() == n ==> crate::lx::ident_allowed(k, c.a, c.y, c.strict) }
pub open spec fn strict(c: Cx) -> Cx { Cx { strict: true, ..c } }
pub open spec fn fun(c: Cx, a: bool, y: bool) -> Cx { Cx { a: a, y: y, strict: c.strict } }
/// a "use strict" directive
#[verifier::opaque]
pub open spec fn use_strict(d: Seq<LitString>) -> bool { exists|i: int| 0 <= i < d.len() && #[trigger] d[i].value@ == "use strict"@ }
pub open spec fn body(c: Cx, d: Seq<LitString>) -> Cx { Cx { strict: c.strict || use_strict(d), ..c } }
pub open spec fn prog(p: Program, c: Cx) -> bool {
    match p {
        Program::Script(l) => stmts(l.body@, body(c, l.directives@)),
        Program::Module(l) => stmts(l.body@, strict(c)),
    }
}
pub open spec fn stmts(s: Seq<Stmt>, c: Cx) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_Stmt(s[i], c) }
pub trait VxTree11: crate::w12::VxTree12 { spec fn tree11(self, c: Cx, module: bool) -> bool; }
impl VxTree11 for Expr { open spec fn tree11(self, c: Cx, module: bool) -> bool { wf_Expr(self, none()) } }
impl VxTree11 for Stmt { open spec fn tree11(self, c: Cx, module: bool) -> bool { wf_Stmt(self, c) } }
impl VxTree11 for Program { open spec fn tree11(self, c: Cx, module: bool) -> bool { (self is Module <==> module) && prog(self, c) } }
pub open spec fn none() -> Cx { Cx { a: false, y: false, strict: false } }

pub broadcast proof fn lemma_plain_lit(l: Literal, c: Cx)
    requires crate::ps::plain_lit(l),
    ensures #[trigger] wf_Literal(l, c),
{
    broadcast use group_tree;
    reveal(crate::ps::all_text);
    if l is Template { let t = l->Template_0; assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)); } }
    match l { Literal::Null => { assert(wf_Literal(Literal::Null, c)); } Literal::Boolean(y) => { assert(wf_Literal(Literal::Boolean(y), c)); } Literal::String(y) => { assert(wf_Literal(Literal::String(y), c)); } Literal::Number(y) => { assert(wf_Literal(Literal::Number(y), c)); } Literal::Regexp(y) => { assert(wf_Literal(Literal::Regexp(y), c)); } Literal::Template(y) => { assert(wf_LitTemplate(y, c)); assert(wf_Literal(Literal::Template(y), c)); } _ => {} }
}
/// a function as parsed under its own context `k`
#[verifier::opaque]
pub open spec fn fn_expr(x: Expr, k: Cx) -> bool { x is Function && x->Function_0.asynchronous == k.a && x->Function_0.generator == k.y && wf_ExprFunction(x->Function_0, k) }
#[verifier::opaque]
pub open spec fn fn_decl(x: Stmt, n: Ident, k: Cx) -> bool { x is FunctionDecl && { let f = x->FunctionDecl_0; f.identifier == n && f.asynchronous == k.a && f.generator == k.y && wf_FormalParameters(f.parameters, k) && wf_Body(f.body, k) } }
#[verifier::opaque]
pub open spec fn fn_method(x: MethodDefinition, n: PropertyName, k: Cx) -> bool { x.name == n && x.asynchronous == k.a && x.generator == k.y && wf_FormalParameters(x.parameters, fun(k, k.a, false)) && wf_Body(x.body, k) }
pub broadcast proof fn lemma_fn_expr(x: Expr, k: Cx, c: Cx)
    requires #[trigger] fn_expr(x, k), k.strict == c.strict,
    ensures #[trigger] wf_Expr(x, c),
{ reveal(fn_expr); let f = x->Function_0; d_ExprFunction(f, k); d_ExprFunction(f, c); d_Expr_Function(f, c); assert(fun(k, k.a, k.y) == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_decl(x: Stmt, n: Ident, k: Cx, c: Cx)
    requires #[trigger] fn_decl(x, n, k), k.strict == c.strict, wf_Ident(n, c),
    ensures #[trigger] wf_Stmt(x, c),
{ reveal(fn_decl); let f = x->FunctionDecl_0; d_DeclFunction(f, c); d_Stmt_FunctionDecl(f, c); assert(k == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_method(x: MethodDefinition, n: PropertyName, k: Cx, c: Cx)
    requires #[trigger] fn_method(x, n, k), k.strict == c.strict, wf_PropertyName(n, c),
    ensures #[trigger] wf_MethodDefinition(x, c),
{ reveal(fn_method); d_MethodDefinition(x, c); assert(k == fun(c, k.a, k.y)); assert(fun(k, k.a, false) == fun(c, k.a, false)); }
pub broadcast proof fn lemma_all_text(t: LitTemplate, c: Cx)
    requires crate::ps::all_text(t),
    ensures #[trigger] wf_LitTemplate(t, c),
{ reveal(crate::ps::all_text); assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)) by { reveal(wf_TemplatePart); } }; assert(wf_LitTemplate(t, c)) by { reveal(wf_LitTemplate); reveal(wf_TemplatePart); } }
pub broadcast proof fn lemma_not_kw(n: Seq<char>, c: Cx)
    requires crate::ps::not_kw(n),
    ensures #[trigger] wid(n, c),
{ reveal(wid); reveal(crate::ps::not_kw); }
pub broadcast proof fn lemma_kw(k: Keyword, c: Cx)
    ensures #[trigger] wid(k.text(), c) == crate::lx::ident_allowed(k, c.a, c.y, c.strict),
{
    reveal(wid);
    if crate::lx::ident_allowed(k, c.a, c.y, c.strict) { assert forall|j: Keyword| #[trigger] j.text() == k.text() implies crate::lx::ident_allowed(j, c.a, c.y, c.strict) by { crate::tables::lemma_keyword_inj(j, k); } }
}
pub broadcast proof fn lemma_empty(n: Seq<char>, c: Cx)
    requires n.len() == 0,
    ensures #[trigger] wid(n, c),
{ reveal(wid); assert forall|j: Keyword| #[trigger] j.text() == n implies crate::lx::ident_allowed(j, c.a, c.y, c.strict) by { crate::tables::lemma_kw_nonempty(j); } }

#[verifier::opaque]
pub open spec fn wf_Argument(x: Argument, c: Cx) -> bool
    decreases x,
{
    match x {
        Argument::Expr(y) => wf_Expr(y, c),
        Argument::Spread(y) => wf_Expr(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_ArrayAssignmentPattern(x: ArrayAssignmentPattern, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> (#[trigger] x.elements[v1] matches Some(ov1) ==> wf_AssignmentElement(ov1, c)))
        && (x.rest matches Some(v3) ==> wf_PatternOrExpr((*v3), c))
}
#[verifier::opaque]
pub open spec fn wf_ArrayBinding(x: ArrayBinding, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> (#[trigger] x.elements[v1] matches Some(ov1) ==> wf_BindingElement(ov1, c)))
        && (x.rest matches Some(v3) ==> wf_BindingPattern((*v3), c))
}
#[verifier::opaque]
pub open spec fn wf_ArrayElement(x: ArrayElement, c: Cx) -> bool
    decreases x,
{
    match x {
        ArrayElement::Elision => true,
        ArrayElement::Expr(y) => wf_Expr(y, c),
        ArrayElement::Spread(y) => wf_Expr(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_ArrowFunctionBody(x: ArrowFunctionBody, c: Cx) -> bool
    decreases x,
{
    match x {
        ArrowFunctionBody::Expr(y) => wf_Expr((*y), c),
        ArrowFunctionBody::Body(y) => wf_Body(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_AssignmentElement(x: AssignmentElement, c: Cx) -> bool
    decreases x,
{
        (wf_PatternOrExpr((*x.target), c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_AssignmentPattern(x: AssignmentPattern, c: Cx) -> bool
    decreases x,
{
    match x {
        AssignmentPattern::Array(y) => wf_ArrayAssignmentPattern(y, c),
        AssignmentPattern::Object(y) => wf_ObjectAssignmentPattern(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_AssignmentProp(x: AssignmentProp, c: Cx) -> bool
    decreases x,
{
    match x {
        AssignmentProp::Single(y) => wf_SingleNameAssignmentProp(y, c),
        AssignmentProp::Named(y) => wf_NamedAssignmentProp(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_BindingElement(x: BindingElement, c: Cx) -> bool
    decreases x,
{
        (wf_BindingPattern(x.pattern, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_BindingPattern(x: BindingPattern, c: Cx) -> bool
    decreases x,
{
    match x {
        BindingPattern::Ident(y) => wf_Ident(y, c),
        BindingPattern::Array(y) => wf_ArrayBinding(y, c),
        BindingPattern::Object(y) => wf_ObjectBinding(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_Body(x: Body, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.statements.len() ==> wf_Stmt(#[trigger] x.statements[v1], body(c, x.directives@)))
}
#[verifier::opaque]
pub open spec fn wf_Callee(x: Callee, c: Cx) -> bool
    decreases x,
{
    match x {
        Callee::Super => true,
        Callee::Import => true,
        Callee::Expr(y) => wf_Expr((*y), c),
    }
}
#[verifier::opaque]
pub open spec fn wf_CatchClause(x: CatchClause, c: Cx) -> bool
    decreases x,
{
        (x.parameter matches Some(v1) ==> wf_BindingPattern(v1, c))
        && (wf_StmtBlock(x.body, c))
}
#[verifier::opaque]
pub open spec fn wf_ClassElement(x: ClassElement, c: Cx) -> bool
    decreases x,
{
    match x {
        ClassElement::Method(y) => wf_MethodDefinition(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_DeclClass(x: DeclClass, c: Cx) -> bool
    decreases x,
{
        (wf_Ident(x.identifier, strict(c)))
        && (x.super_class matches Some(v1) ==> wf_Expr((*v1), strict(c)))
        && (forall|v2: int| 0 <= v2 < x.body.len() ==> wf_ClassElement(#[trigger] x.body[v2], strict(c)))
}
#[verifier::opaque]
pub open spec fn wf_DeclExport(x: DeclExport, c: Cx) -> bool
    decreases x,
{
    match x {
        DeclExport::Decl(y) => wf_ExportDecl(y, c),
        DeclExport::DefaultExpr(y) => wf_ExportDefaultExpr(y, c),
        DeclExport::DefaultDecl(y) => wf_ExportDefaultDecl(y, c),
        DeclExport::Named(y) => wf_ExportNamed(y, c),
        DeclExport::Namespace(y) => wf_ExportNamespace(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_DeclFunction(x: DeclFunction, c: Cx) -> bool
    decreases x,
{
        (wf_Ident(x.identifier, c))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, x.generator)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))
}
#[verifier::opaque]
pub open spec fn wf_DeclImport(x: DeclImport, c: Cx) -> bool
    decreases x,
{
        (x.default_binding matches Some(v1) ==> wf_Ident(v1, c))
        && (x.namespace_binding matches Some(v2) ==> wf_Ident(v2, c))
        && (x.named_imports matches Some(v3) ==> (forall|v4: int| 0 <= v4 < v3.len() ==> wf_NamedImport(#[trigger] v3[v4], c)))
}
#[verifier::opaque]
pub open spec fn wf_ExportDecl(x: ExportDecl, c: Cx) -> bool
    decreases x,
{
        (wf_Stmt((*x.decl), c))
}
#[verifier::opaque]
pub open spec fn wf_ExportDefaultDecl(x: ExportDefaultDecl, c: Cx) -> bool
    decreases x,
{
        (wf_Stmt((*x.decl), c))
}
#[verifier::opaque]
pub open spec fn wf_ExportDefaultExpr(x: ExportDefaultExpr, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.expr), c))
}
#[verifier::opaque]
pub open spec fn wf_ExportNamed(x: ExportNamed, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.named_exports.len() ==> wf_NamedExport(#[trigger] x.named_exports[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_ExportNamespace(x: ExportNamespace, c: Cx) -> bool
    decreases x,
{
        true
}
#[verifier::opaque]
pub open spec fn wf_Expr(x: Expr, c: Cx) -> bool
    decreases x,
{
    match x {
        Expr::ArrowFunction(y) => wf_ExprArrowFunction(y, c),
        Expr::Assignment(y) => wf_ExprAssignment(y, c),
        Expr::Await(y) => wf_ExprAwait(y, c),
        Expr::Binary(y) => wf_ExprBinary(y, c),
        Expr::Call(y) => wf_ExprCall(y, c),
        Expr::Class(y) => wf_ExprClass(y, c),
        Expr::Conditional(y) => wf_ExprConditional(y, c),
        Expr::Function(y) => wf_ExprFunction(y, c),
        Expr::IdentRef(y) => wf_Ident(y, c),
        Expr::Literal(y) => wf_ExprLiteral(y, c),
        Expr::Logical(y) => wf_ExprLogical(y, c),
        Expr::Member(y) => wf_ExprMember(y, c),
        Expr::MetaProperty(y) => wf_ExprMetaProperty(y, c),
        Expr::New(y) => wf_ExprNew(y, c),
        Expr::OptionalCall(y) => wf_ExprOptionalCall(y, c),
        Expr::OptionalMember(y) => wf_ExprOptionalMember(y, c),
        Expr::Parenthesized(y) => wf_ExprParenthesized(y, c),
        Expr::Sequence(y) => wf_ExprSequence(y, c),
        Expr::TaggedTemplate(y) => wf_ExprTaggedTemplate(y, c),
        Expr::This(y) => true,
        Expr::Unary(y) => wf_ExprUnary(y, c),
        Expr::Update(y) => wf_ExprUpdate(y, c),
        Expr::Yield(y) => wf_ExprYield(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_ExprArrowFunction(x: ExprArrowFunction, c: Cx) -> bool
    decreases x,
{
        (wf_FormalParameters(x.parameters, c))
        && (wf_ArrowFunctionBody(x.body, fun(c, x.asynchronous, false)))
}
#[verifier::opaque]
pub open spec fn wf_ExprAssignment(x: ExprAssignment, c: Cx) -> bool
    decreases x,
{
        (wf_PatternOrExpr((*x.left), c))
        && (wf_Expr((*x.right), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprAwait(x: ExprAwait, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.argument), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprBinary(x: ExprBinary, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.left), c))
        && (wf_Expr((*x.right), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprCall(x: ExprCall, c: Cx) -> bool
    decreases x,
{
        (wf_Callee(x.callee, c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_ExprClass(x: ExprClass, c: Cx) -> bool
    decreases x,
{
        (x.identifier matches Some(v1) ==> wf_Ident(v1, strict(c)))
        && (x.super_class matches Some(v2) ==> wf_Expr((*v2), strict(c)))
        && (forall|v3: int| 0 <= v3 < x.body.len() ==> wf_ClassElement(#[trigger] x.body[v3], strict(c)))
}
#[verifier::opaque]
pub open spec fn wf_ExprConditional(x: ExprConditional, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.condition), c))
        && (wf_Expr((*x.consequent), c))
        && (wf_Expr((*x.alternate), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprFunction(x: ExprFunction, c: Cx) -> bool
    decreases x,
{
        (x.identifier matches Some(v1) ==> wf_Ident(v1, fun(c, x.asynchronous, x.generator)))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, x.generator)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))
}
#[verifier::opaque]
pub open spec fn wf_ExprLiteral(x: ExprLiteral, c: Cx) -> bool
    decreases x,
{
        (wf_Literal(x.literal, c))
}
#[verifier::opaque]
pub open spec fn wf_ExprLogical(x: ExprLogical, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.left), c))
        && (wf_Expr((*x.right), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprMember(x: ExprMember, c: Cx) -> bool
    decreases x,
{
        (wf_MemberObject(x.object, c))
        && (wf_MemberProperty(x.property, c))
}
#[verifier::opaque]
pub open spec fn wf_ExprMetaProperty(x: ExprMetaProperty, c: Cx) -> bool
    decreases x,
{
        true
}
#[verifier::opaque]
pub open spec fn wf_ExprNew(x: ExprNew, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.callee), c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_ExprOptionalCall(x: ExprOptionalCall, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.callee), c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_ExprOptionalMember(x: ExprOptionalMember, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.object), c))
        && (wf_MemberProperty(x.property, c))
}
#[verifier::opaque]
pub open spec fn wf_ExprParenthesized(x: ExprParenthesized, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.expression), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprSequence(x: ExprSequence, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.expr.len() ==> wf_Expr(#[trigger] x.expr[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_ExprTaggedTemplate(x: ExprTaggedTemplate, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.callee), c))
        && (wf_LitTemplate(x.template, c))
}
#[verifier::opaque]
pub open spec fn wf_ExprUnary(x: ExprUnary, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.argument), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprUpdate(x: ExprUpdate, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.argument), c))
}
#[verifier::opaque]
pub open spec fn wf_ExprYield(x: ExprYield, c: Cx) -> bool
    decreases x,
{
        (x.argument matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_ForBinding(x: ForBinding, c: Cx) -> bool
    decreases x,
{
        (wf_BindingPattern(x.binding, c))
}
#[verifier::opaque]
pub open spec fn wf_ForDeclaration(x: ForDeclaration, c: Cx) -> bool
    decreases x,
{
    match x {
        ForDeclaration::Expr(y) => wf_Expr((*y), c),
        ForDeclaration::AssignmentPattern(y) => wf_AssignmentPattern(y, c),
        ForDeclaration::Declaration(y) => wf_ForBinding(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_ForInit(x: ForInit, c: Cx) -> bool
    decreases x,
{
    match x {
        ForInit::Expr(y) => wf_Expr((*y), c),
        ForInit::Declaration(y) => wf_StmtVariable(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_FormalParameters(x: FormalParameters, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.bindings.len() ==> wf_BindingElement(#[trigger] x.bindings[v1], c))
        && (x.rest matches Some(v2) ==> wf_BindingPattern((*v2), c))
}
#[verifier::opaque]
pub open spec fn wf_Ident(x: Ident, c: Cx) -> bool
    decreases x,
{
        (wid(x.name@, c))
}
#[verifier::opaque]
pub open spec fn wf_LitArray(x: LitArray, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> wf_ArrayElement(#[trigger] x.elements[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_LitObject(x: LitObject, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_PropertyDefinition(#[trigger] x.props[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_LitTemplate(x: LitTemplate, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.parts.len() ==> wf_TemplatePart(#[trigger] x.parts[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_Literal(x: Literal, c: Cx) -> bool
    decreases x,
{
    match x {
        Literal::Null => true,
        Literal::Boolean(y) => true,
        Literal::String(y) => true,
        Literal::Number(y) => true,
        Literal::Array(y) => wf_LitArray(y, c),
        Literal::Object(y) => wf_LitObject(y, c),
        Literal::Regexp(y) => true,
        Literal::Template(y) => wf_LitTemplate(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_MemberObject(x: MemberObject, c: Cx) -> bool
    decreases x,
{
    match x {
        MemberObject::Expr(y) => wf_Expr((*y), c),
        MemberObject::Super(y) => true,
    }
}
#[verifier::opaque]
pub open spec fn wf_MemberProperty(x: MemberProperty, c: Cx) -> bool
    decreases x,
{
    match x {
        MemberProperty::Ident(y) => true,
        MemberProperty::Expr(y) => wf_Expr((*y), c),
    }
}
#[verifier::opaque]
pub open spec fn wf_MethodDefinition(x: MethodDefinition, c: Cx) -> bool
    decreases x,
{
        (wf_PropertyName(x.name, c))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, false)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))
}
#[verifier::opaque]
pub open spec fn wf_NamedAssignmentProp(x: NamedAssignmentProp, c: Cx) -> bool
    decreases x,
{
        (wf_PropertyName(x.name, c))
        && (wf_PatternOrExpr((*x.value), c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_NamedBinding(x: NamedBinding, c: Cx) -> bool
    decreases x,
{
        (wf_PropertyName(x.property, c))
        && (wf_BindingElement(x.binding, c))
}
#[verifier::opaque]
pub open spec fn wf_NamedExport(x: NamedExport, c: Cx) -> bool
    decreases x,
{
        true
}
#[verifier::opaque]
pub open spec fn wf_NamedImport(x: NamedImport, c: Cx) -> bool
    decreases x,
{
        (x.alias is None ==> wf_Ident(x.name, c))
        && (x.alias matches Some(v1) ==> wf_Ident(v1, c))
}
#[verifier::opaque]
pub open spec fn wf_NamedProperty(x: NamedProperty, c: Cx) -> bool
    decreases x,
{
        (wf_PropertyName(x.name, c))
        && (wf_Expr(x.value, c))
}
#[verifier::opaque]
pub open spec fn wf_ObjectAssignmentPattern(x: ObjectAssignmentPattern, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_AssignmentProp(#[trigger] x.props[v1], c))
        && (x.rest matches Some(v2) ==> wf_PatternOrExpr((*v2), c))
}
#[verifier::opaque]
pub open spec fn wf_ObjectBinding(x: ObjectBinding, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_ObjectBindingProp(#[trigger] x.props[v1], c))
        && (x.rest matches Some(v2) ==> wf_BindingPattern((*v2), c))
}
#[verifier::opaque]
pub open spec fn wf_ObjectBindingProp(x: ObjectBindingProp, c: Cx) -> bool
    decreases x,
{
    match x {
        ObjectBindingProp::Single(y) => wf_SingleNameBinding(y, c),
        ObjectBindingProp::Named(y) => wf_NamedBinding(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_PatternOrExpr(x: PatternOrExpr, c: Cx) -> bool
    decreases x,
{
    match x {
        PatternOrExpr::Expr(y) => wf_Expr(y, c),
        PatternOrExpr::AssignmentPattern(y) => wf_AssignmentPattern(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_PropertyDefinition(x: PropertyDefinition, c: Cx) -> bool
    decreases x,
{
    match x {
        PropertyDefinition::IdentRef(y) => wf_Ident(y, c),
        PropertyDefinition::Spread(y) => wf_Expr(y, c),
        PropertyDefinition::Named(y) => wf_NamedProperty(y, c),
        PropertyDefinition::Method(y) => wf_MethodDefinition(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_PropertyName(x: PropertyName, c: Cx) -> bool
    decreases x,
{
    match x {
        PropertyName::Ident(y) => true,
        PropertyName::String(y) => true,
        PropertyName::Number(y) => true,
        PropertyName::Computed(y) => wf_Expr((*y), c),
    }
}
#[verifier::opaque]
pub open spec fn wf_SingleNameAssignmentProp(x: SingleNameAssignmentProp, c: Cx) -> bool
    decreases x,
{
        (wf_Ident(x.ident, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_SingleNameBinding(x: SingleNameBinding, c: Cx) -> bool
    decreases x,
{
        (wf_Ident(x.ident, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_Stmt(x: Stmt, c: Cx) -> bool
    decreases x,
{
    match x {
        Stmt::Block(y) => wf_StmtBlock(y, c),
        Stmt::Break(y) => wf_StmtBreak(y, c),
        Stmt::Continue(y) => wf_StmtContinue(y, c),
        Stmt::Debugger(y) => true,
        Stmt::DoWhile(y) => wf_StmtDoWhile(y, c),
        Stmt::Empty(y) => true,
        Stmt::Expr(y) => wf_StmtExpr(y, c),
        Stmt::For(y) => wf_StmtFor(y, c),
        Stmt::ForIn(y) => wf_StmtForIn(y, c),
        Stmt::ForOf(y) => wf_StmtForOf(y, c),
        Stmt::If(y) => wf_StmtIf(y, c),
        Stmt::Labeled(y) => wf_StmtLabeled(y, c),
        Stmt::Return(y) => wf_StmtReturn(y, c),
        Stmt::Switch(y) => wf_StmtSwitch(y, c),
        Stmt::Throw(y) => wf_StmtThrow(y, c),
        Stmt::Try(y) => wf_StmtTry(y, c),
        Stmt::Variable(y) => wf_StmtVariable(y, c),
        Stmt::While(y) => wf_StmtWhile(y, c),
        Stmt::With(y) => wf_StmtWith(y, c),
        Stmt::ClassDecl(y) => wf_DeclClass(y, c),
        Stmt::FunctionDecl(y) => wf_DeclFunction(y, c),
        Stmt::ImportDecl(y) => wf_DeclImport(y, c),
        Stmt::ExportDecl(y) => wf_DeclExport(y, c),
    }
}
#[verifier::opaque]
pub open spec fn wf_StmtBlock(x: StmtBlock, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.statements.len() ==> wf_Stmt(#[trigger] x.statements[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_StmtBreak(x: StmtBreak, c: Cx) -> bool
    decreases x,
{
        (x.label matches Some(v1) ==> wf_Ident(v1, c))
}
#[verifier::opaque]
pub open spec fn wf_StmtContinue(x: StmtContinue, c: Cx) -> bool
    decreases x,
{
        (x.label matches Some(v1) ==> wf_Ident(v1, c))
}
#[verifier::opaque]
pub open spec fn wf_StmtDoWhile(x: StmtDoWhile, c: Cx) -> bool
    decreases x,
{
        (wf_Stmt((*x.body), c))
        && (wf_Expr((*x.test), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtExpr(x: StmtExpr, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.expr), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtFor(x: StmtFor, c: Cx) -> bool
    decreases x,
{
        (x.init matches Some(v1) ==> wf_ForInit(v1, c))
        && (x.test matches Some(v2) ==> wf_Expr((*v2), c))
        && (x.update matches Some(v3) ==> wf_Expr((*v3), c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtForIn(x: StmtForIn, c: Cx) -> bool
    decreases x,
{
        (wf_ForDeclaration(x.left, c))
        && (wf_Expr((*x.right), c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtForOf(x: StmtForOf, c: Cx) -> bool
    decreases x,
{
        (wf_ForDeclaration(x.left, c))
        && (wf_Expr((*x.right), c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtIf(x: StmtIf, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.condition), c))
        && (wf_Stmt((*x.consequent), c))
        && (x.alternate matches Some(v1) ==> wf_Stmt((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtLabeled(x: StmtLabeled, c: Cx) -> bool
    decreases x,
{
        (wf_Ident(x.label, c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtReturn(x: StmtReturn, c: Cx) -> bool
    decreases x,
{
        (x.argument matches Some(v1) ==> wf_Expr((*v1), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtSwitch(x: StmtSwitch, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.discriminant), c))
        && (forall|v1: int| 0 <= v1 < x.cases.len() ==> wf_SwitchCase(#[trigger] x.cases[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_StmtThrow(x: StmtThrow, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.argument), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtTry(x: StmtTry, c: Cx) -> bool
    decreases x,
{
        (wf_StmtBlock(x.block, c))
        && (x.handler matches Some(v1) ==> wf_CatchClause((*v1), c))
        && (x.finalizer matches Some(v2) ==> wf_StmtBlock(v2, c))
}
#[verifier::opaque]
pub open spec fn wf_StmtVariable(x: StmtVariable, c: Cx) -> bool
    decreases x,
{
        (forall|v1: int| 0 <= v1 < x.declarations.len() ==> wf_VariableDeclaration(#[trigger] x.declarations[v1], c))
}
#[verifier::opaque]
pub open spec fn wf_StmtWhile(x: StmtWhile, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.test), c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_StmtWith(x: StmtWith, c: Cx) -> bool
    decreases x,
{
        (wf_Expr((*x.object), c))
        && (wf_Stmt((*x.body), c))
}
#[verifier::opaque]
pub open spec fn wf_SwitchCase(x: SwitchCase, c: Cx) -> bool
    decreases x,
{
        (x.test matches Some(v1) ==> wf_Expr(v1, c))
        && (forall|v2: int| 0 <= v2 < x.consequent.len() ==> wf_Stmt(#[trigger] x.consequent[v2], c))
}
#[verifier::opaque]
pub open spec fn wf_TemplatePart(x: TemplatePart, c: Cx) -> bool
    decreases x,
{
    match x {
        TemplatePart::String(y) => true,
        TemplatePart::Expr(y) => wf_Expr((*y), c),
    }
}
#[verifier::opaque]
pub open spec fn wf_VariableDeclaration(x: VariableDeclaration, c: Cx) -> bool
    decreases x,
{
        (wf_BindingPattern(x.pattern, c))
        && (x.initializer matches Some(v1) ==> wf_Expr(v1, c))
}

pub broadcast proof fn d_Argument_Expr(y: Expr, c: Cx)
    ensures #[trigger] wf_Argument(Argument::Expr(y), c) == (wf_Expr(y, c)),
{ reveal(wf_Argument); reveal(wf_Expr); }
pub broadcast proof fn d_Argument_Spread(y: Expr, c: Cx)
    ensures #[trigger] wf_Argument(Argument::Spread(y), c) == (wf_Expr(y, c)),
{ reveal(wf_Argument); reveal(wf_Expr); }
pub broadcast proof fn d_ArrayAssignmentPattern(x: ArrayAssignmentPattern, c: Cx)
    ensures #[trigger] wf_ArrayAssignmentPattern(x, c) == (
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> (#[trigger] x.elements[v1] matches Some(ov1) ==> wf_AssignmentElement(ov1, c)))
        && (x.rest matches Some(v3) ==> wf_PatternOrExpr((*v3), c))),
{ reveal(wf_ArrayAssignmentPattern); reveal(wf_AssignmentElement); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_ArrayBinding(x: ArrayBinding, c: Cx)
    ensures #[trigger] wf_ArrayBinding(x, c) == (
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> (#[trigger] x.elements[v1] matches Some(ov1) ==> wf_BindingElement(ov1, c)))
        && (x.rest matches Some(v3) ==> wf_BindingPattern((*v3), c))),
{ reveal(wf_ArrayBinding); reveal(wf_BindingElement); reveal(wf_BindingPattern); }
pub broadcast proof fn d_ArrayElement_Elision(c: Cx)
    ensures #[trigger] wf_ArrayElement(ArrayElement::Elision, c) == (true),
{ reveal(wf_ArrayElement); }
pub broadcast proof fn d_ArrayElement_Expr(y: Expr, c: Cx)
    ensures #[trigger] wf_ArrayElement(ArrayElement::Expr(y), c) == (wf_Expr(y, c)),
{ reveal(wf_ArrayElement); reveal(wf_Expr); }
pub broadcast proof fn d_ArrayElement_Spread(y: Expr, c: Cx)
    ensures #[trigger] wf_ArrayElement(ArrayElement::Spread(y), c) == (wf_Expr(y, c)),
{ reveal(wf_ArrayElement); reveal(wf_Expr); }
pub broadcast proof fn d_ArrowFunctionBody_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_ArrowFunctionBody(ArrowFunctionBody::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_ArrowFunctionBody); reveal(wf_Expr); }
pub broadcast proof fn d_ArrowFunctionBody_Body(y: Body, c: Cx)
    ensures #[trigger] wf_ArrowFunctionBody(ArrowFunctionBody::Body(y), c) == (wf_Body(y, c)),
{ reveal(wf_ArrowFunctionBody); reveal(wf_Body); }
pub broadcast proof fn d_AssignmentElement(x: AssignmentElement, c: Cx)
    ensures #[trigger] wf_AssignmentElement(x, c) == (
        (wf_PatternOrExpr((*x.target), c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_AssignmentElement); reveal(wf_Expr); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_AssignmentPattern_Array(y: ArrayAssignmentPattern, c: Cx)
    ensures #[trigger] wf_AssignmentPattern(AssignmentPattern::Array(y), c) == (wf_ArrayAssignmentPattern(y, c)),
{ reveal(wf_ArrayAssignmentPattern); reveal(wf_AssignmentPattern); }
pub broadcast proof fn d_AssignmentPattern_Object(y: ObjectAssignmentPattern, c: Cx)
    ensures #[trigger] wf_AssignmentPattern(AssignmentPattern::Object(y), c) == (wf_ObjectAssignmentPattern(y, c)),
{ reveal(wf_AssignmentPattern); reveal(wf_ObjectAssignmentPattern); }
pub broadcast proof fn d_AssignmentProp_Single(y: SingleNameAssignmentProp, c: Cx)
    ensures #[trigger] wf_AssignmentProp(AssignmentProp::Single(y), c) == (wf_SingleNameAssignmentProp(y, c)),
{ reveal(wf_AssignmentProp); reveal(wf_SingleNameAssignmentProp); }
pub broadcast proof fn d_AssignmentProp_Named(y: NamedAssignmentProp, c: Cx)
    ensures #[trigger] wf_AssignmentProp(AssignmentProp::Named(y), c) == (wf_NamedAssignmentProp(y, c)),
{ reveal(wf_AssignmentProp); reveal(wf_NamedAssignmentProp); }
pub broadcast proof fn d_BindingElement(x: BindingElement, c: Cx)
    ensures #[trigger] wf_BindingElement(x, c) == (
        (wf_BindingPattern(x.pattern, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_BindingElement); reveal(wf_BindingPattern); reveal(wf_Expr); }
pub broadcast proof fn d_BindingPattern_Ident(y: Ident, c: Cx)
    ensures #[trigger] wf_BindingPattern(BindingPattern::Ident(y), c) == (wf_Ident(y, c)),
{ reveal(wf_BindingPattern); reveal(wf_Ident); }
pub broadcast proof fn d_BindingPattern_Array(y: ArrayBinding, c: Cx)
    ensures #[trigger] wf_BindingPattern(BindingPattern::Array(y), c) == (wf_ArrayBinding(y, c)),
{ reveal(wf_ArrayBinding); reveal(wf_BindingPattern); }
pub broadcast proof fn d_BindingPattern_Object(y: ObjectBinding, c: Cx)
    ensures #[trigger] wf_BindingPattern(BindingPattern::Object(y), c) == (wf_ObjectBinding(y, c)),
{ reveal(wf_BindingPattern); reveal(wf_ObjectBinding); }
pub broadcast proof fn d_Body(x: Body, c: Cx)
    ensures #[trigger] wf_Body(x, c) == (
        (forall|v1: int| 0 <= v1 < x.statements.len() ==> wf_Stmt(#[trigger] x.statements[v1], body(c, x.directives@)))),
{ reveal(wf_Body); reveal(wf_Stmt); }
pub broadcast proof fn d_Callee_Super(c: Cx)
    ensures #[trigger] wf_Callee(Callee::Super, c) == (true),
{ reveal(wf_Callee); }
pub broadcast proof fn d_Callee_Import(c: Cx)
    ensures #[trigger] wf_Callee(Callee::Import, c) == (true),
{ reveal(wf_Callee); }
pub broadcast proof fn d_Callee_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_Callee(Callee::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Callee); reveal(wf_Expr); }
pub broadcast proof fn d_CatchClause(x: CatchClause, c: Cx)
    ensures #[trigger] wf_CatchClause(x, c) == (
        (x.parameter matches Some(v1) ==> wf_BindingPattern(v1, c))
        && (wf_StmtBlock(x.body, c))),
{ reveal(wf_BindingPattern); reveal(wf_CatchClause); reveal(wf_StmtBlock); }
pub broadcast proof fn d_ClassElement_Method(y: MethodDefinition, c: Cx)
    ensures #[trigger] wf_ClassElement(ClassElement::Method(y), c) == (wf_MethodDefinition(y, c)),
{ reveal(wf_ClassElement); reveal(wf_MethodDefinition); }
pub broadcast proof fn d_DeclClass(x: DeclClass, c: Cx)
    ensures #[trigger] wf_DeclClass(x, c) == (
        (wf_Ident(x.identifier, strict(c)))
        && (x.super_class matches Some(v1) ==> wf_Expr((*v1), strict(c)))
        && (forall|v2: int| 0 <= v2 < x.body.len() ==> wf_ClassElement(#[trigger] x.body[v2], strict(c)))),
{ reveal(wf_ClassElement); reveal(wf_DeclClass); reveal(wf_Expr); reveal(wf_Ident); }
pub broadcast proof fn d_DeclExport_Decl(y: ExportDecl, c: Cx)
    ensures #[trigger] wf_DeclExport(DeclExport::Decl(y), c) == (wf_ExportDecl(y, c)),
{ reveal(wf_DeclExport); reveal(wf_ExportDecl); }
pub broadcast proof fn d_DeclExport_DefaultExpr(y: ExportDefaultExpr, c: Cx)
    ensures #[trigger] wf_DeclExport(DeclExport::DefaultExpr(y), c) == (wf_ExportDefaultExpr(y, c)),
{ reveal(wf_DeclExport); reveal(wf_ExportDefaultExpr); }
pub broadcast proof fn d_DeclExport_DefaultDecl(y: ExportDefaultDecl, c: Cx)
    ensures #[trigger] wf_DeclExport(DeclExport::DefaultDecl(y), c) == (wf_ExportDefaultDecl(y, c)),
{ reveal(wf_DeclExport); reveal(wf_ExportDefaultDecl); }
pub broadcast proof fn d_DeclExport_Named(y: ExportNamed, c: Cx)
    ensures #[trigger] wf_DeclExport(DeclExport::Named(y), c) == (wf_ExportNamed(y, c)),
{ reveal(wf_DeclExport); reveal(wf_ExportNamed); }
pub broadcast proof fn d_DeclExport_Namespace(y: ExportNamespace, c: Cx)
    ensures #[trigger] wf_DeclExport(DeclExport::Namespace(y), c) == (wf_ExportNamespace(y, c)),
{ reveal(wf_DeclExport); reveal(wf_ExportNamespace); }
pub broadcast proof fn d_DeclFunction(x: DeclFunction, c: Cx)
    ensures #[trigger] wf_DeclFunction(x, c) == (
        (wf_Ident(x.identifier, c))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, x.generator)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))),
{ reveal(wf_Body); reveal(wf_DeclFunction); reveal(wf_FormalParameters); reveal(wf_Ident); }
pub broadcast proof fn d_DeclImport(x: DeclImport, c: Cx)
    ensures #[trigger] wf_DeclImport(x, c) == (
        (x.default_binding matches Some(v1) ==> wf_Ident(v1, c))
        && (x.namespace_binding matches Some(v2) ==> wf_Ident(v2, c))
        && (x.named_imports matches Some(v3) ==> (forall|v4: int| 0 <= v4 < v3.len() ==> wf_NamedImport(#[trigger] v3[v4], c)))),
{ reveal(wf_DeclImport); reveal(wf_Ident); reveal(wf_NamedImport); }
pub broadcast proof fn d_ExportDecl(x: ExportDecl, c: Cx)
    ensures #[trigger] wf_ExportDecl(x, c) == (
        (wf_Stmt((*x.decl), c))),
{ reveal(wf_ExportDecl); reveal(wf_Stmt); }
pub broadcast proof fn d_ExportDefaultDecl(x: ExportDefaultDecl, c: Cx)
    ensures #[trigger] wf_ExportDefaultDecl(x, c) == (
        (wf_Stmt((*x.decl), c))),
{ reveal(wf_ExportDefaultDecl); reveal(wf_Stmt); }
pub broadcast proof fn d_ExportDefaultExpr(x: ExportDefaultExpr, c: Cx)
    ensures #[trigger] wf_ExportDefaultExpr(x, c) == (
        (wf_Expr((*x.expr), c))),
{ reveal(wf_ExportDefaultExpr); reveal(wf_Expr); }
pub broadcast proof fn d_ExportNamed(x: ExportNamed, c: Cx)
    ensures #[trigger] wf_ExportNamed(x, c) == (
        (forall|v1: int| 0 <= v1 < x.named_exports.len() ==> wf_NamedExport(#[trigger] x.named_exports[v1], c))),
{ reveal(wf_ExportNamed); reveal(wf_NamedExport); }
pub broadcast proof fn d_ExportNamespace(x: ExportNamespace, c: Cx)
    ensures #[trigger] wf_ExportNamespace(x, c) == (
        true),
{ reveal(wf_ExportNamespace); }
pub broadcast proof fn d_Expr_ArrowFunction(y: ExprArrowFunction, c: Cx)
    ensures #[trigger] wf_Expr(Expr::ArrowFunction(y), c) == (wf_ExprArrowFunction(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprArrowFunction); }
pub broadcast proof fn d_Expr_Assignment(y: ExprAssignment, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Assignment(y), c) == (wf_ExprAssignment(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprAssignment); }
pub broadcast proof fn d_Expr_Await(y: ExprAwait, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Await(y), c) == (wf_ExprAwait(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprAwait); }
pub broadcast proof fn d_Expr_Binary(y: ExprBinary, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Binary(y), c) == (wf_ExprBinary(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprBinary); }
pub broadcast proof fn d_Expr_Call(y: ExprCall, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Call(y), c) == (wf_ExprCall(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprCall); }
pub broadcast proof fn d_Expr_Class(y: ExprClass, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Class(y), c) == (wf_ExprClass(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprClass); }
pub broadcast proof fn d_Expr_Conditional(y: ExprConditional, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Conditional(y), c) == (wf_ExprConditional(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprConditional); }
pub broadcast proof fn d_Expr_Function(y: ExprFunction, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Function(y), c) == (wf_ExprFunction(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprFunction); }
pub broadcast proof fn d_Expr_IdentRef(y: Ident, c: Cx)
    ensures #[trigger] wf_Expr(Expr::IdentRef(y), c) == (wf_Ident(y, c)),
{ reveal(wf_Expr); reveal(wf_Ident); }
pub broadcast proof fn d_Expr_Literal(y: ExprLiteral, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Literal(y), c) == (wf_ExprLiteral(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprLiteral); }
pub broadcast proof fn d_Expr_Logical(y: ExprLogical, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Logical(y), c) == (wf_ExprLogical(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprLogical); }
pub broadcast proof fn d_Expr_Member(y: ExprMember, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Member(y), c) == (wf_ExprMember(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprMember); }
pub broadcast proof fn d_Expr_MetaProperty(y: ExprMetaProperty, c: Cx)
    ensures #[trigger] wf_Expr(Expr::MetaProperty(y), c) == (wf_ExprMetaProperty(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprMetaProperty); }
pub broadcast proof fn d_Expr_New(y: ExprNew, c: Cx)
    ensures #[trigger] wf_Expr(Expr::New(y), c) == (wf_ExprNew(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprNew); }
pub broadcast proof fn d_Expr_OptionalCall(y: ExprOptionalCall, c: Cx)
    ensures #[trigger] wf_Expr(Expr::OptionalCall(y), c) == (wf_ExprOptionalCall(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprOptionalCall); }
pub broadcast proof fn d_Expr_OptionalMember(y: ExprOptionalMember, c: Cx)
    ensures #[trigger] wf_Expr(Expr::OptionalMember(y), c) == (wf_ExprOptionalMember(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprOptionalMember); }
pub broadcast proof fn d_Expr_Parenthesized(y: ExprParenthesized, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Parenthesized(y), c) == (wf_ExprParenthesized(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprParenthesized); }
pub broadcast proof fn d_Expr_Sequence(y: ExprSequence, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Sequence(y), c) == (wf_ExprSequence(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprSequence); }
pub broadcast proof fn d_Expr_TaggedTemplate(y: ExprTaggedTemplate, c: Cx)
    ensures #[trigger] wf_Expr(Expr::TaggedTemplate(y), c) == (wf_ExprTaggedTemplate(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprTaggedTemplate); }
pub broadcast proof fn d_Expr_This(y: ExprThis, c: Cx)
    ensures #[trigger] wf_Expr(Expr::This(y), c) == (true),
{ reveal(wf_Expr); }
pub broadcast proof fn d_Expr_Unary(y: ExprUnary, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Unary(y), c) == (wf_ExprUnary(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprUnary); }
pub broadcast proof fn d_Expr_Update(y: ExprUpdate, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Update(y), c) == (wf_ExprUpdate(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprUpdate); }
pub broadcast proof fn d_Expr_Yield(y: ExprYield, c: Cx)
    ensures #[trigger] wf_Expr(Expr::Yield(y), c) == (wf_ExprYield(y, c)),
{ reveal(wf_Expr); reveal(wf_ExprYield); }
pub broadcast proof fn d_ExprArrowFunction(x: ExprArrowFunction, c: Cx)
    ensures #[trigger] wf_ExprArrowFunction(x, c) == (
        (wf_FormalParameters(x.parameters, c))
        && (wf_ArrowFunctionBody(x.body, fun(c, x.asynchronous, false)))),
{ reveal(wf_ArrowFunctionBody); reveal(wf_ExprArrowFunction); reveal(wf_FormalParameters); }
pub broadcast proof fn d_ExprAssignment(x: ExprAssignment, c: Cx)
    ensures #[trigger] wf_ExprAssignment(x, c) == (
        (wf_PatternOrExpr((*x.left), c))
        && (wf_Expr((*x.right), c))),
{ reveal(wf_Expr); reveal(wf_ExprAssignment); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_ExprAwait(x: ExprAwait, c: Cx)
    ensures #[trigger] wf_ExprAwait(x, c) == (
        (wf_Expr((*x.argument), c))),
{ reveal(wf_Expr); reveal(wf_ExprAwait); }
pub broadcast proof fn d_ExprBinary(x: ExprBinary, c: Cx)
    ensures #[trigger] wf_ExprBinary(x, c) == (
        (wf_Expr((*x.left), c))
        && (wf_Expr((*x.right), c))),
{ reveal(wf_Expr); reveal(wf_ExprBinary); }
pub broadcast proof fn d_ExprCall(x: ExprCall, c: Cx)
    ensures #[trigger] wf_ExprCall(x, c) == (
        (wf_Callee(x.callee, c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))),
{ reveal(wf_Argument); reveal(wf_Callee); reveal(wf_ExprCall); }
pub broadcast proof fn d_ExprClass(x: ExprClass, c: Cx)
    ensures #[trigger] wf_ExprClass(x, c) == (
        (x.identifier matches Some(v1) ==> wf_Ident(v1, strict(c)))
        && (x.super_class matches Some(v2) ==> wf_Expr((*v2), strict(c)))
        && (forall|v3: int| 0 <= v3 < x.body.len() ==> wf_ClassElement(#[trigger] x.body[v3], strict(c)))),
{ reveal(wf_ClassElement); reveal(wf_Expr); reveal(wf_ExprClass); reveal(wf_Ident); }
pub broadcast proof fn d_ExprConditional(x: ExprConditional, c: Cx)
    ensures #[trigger] wf_ExprConditional(x, c) == (
        (wf_Expr((*x.condition), c))
        && (wf_Expr((*x.consequent), c))
        && (wf_Expr((*x.alternate), c))),
{ reveal(wf_Expr); reveal(wf_ExprConditional); }
pub broadcast proof fn d_ExprFunction(x: ExprFunction, c: Cx)
    ensures #[trigger] wf_ExprFunction(x, c) == (
        (x.identifier matches Some(v1) ==> wf_Ident(v1, fun(c, x.asynchronous, x.generator)))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, x.generator)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))),
{ reveal(wf_Body); reveal(wf_ExprFunction); reveal(wf_FormalParameters); reveal(wf_Ident); }
pub broadcast proof fn d_ExprLiteral(x: ExprLiteral, c: Cx)
    ensures #[trigger] wf_ExprLiteral(x, c) == (
        (wf_Literal(x.literal, c))),
{ reveal(wf_ExprLiteral); reveal(wf_Literal); }
pub broadcast proof fn d_ExprLogical(x: ExprLogical, c: Cx)
    ensures #[trigger] wf_ExprLogical(x, c) == (
        (wf_Expr((*x.left), c))
        && (wf_Expr((*x.right), c))),
{ reveal(wf_Expr); reveal(wf_ExprLogical); }
pub broadcast proof fn d_ExprMember(x: ExprMember, c: Cx)
    ensures #[trigger] wf_ExprMember(x, c) == (
        (wf_MemberObject(x.object, c))
        && (wf_MemberProperty(x.property, c))),
{ reveal(wf_ExprMember); reveal(wf_MemberObject); reveal(wf_MemberProperty); }
pub broadcast proof fn d_ExprMetaProperty(x: ExprMetaProperty, c: Cx)
    ensures #[trigger] wf_ExprMetaProperty(x, c) == (
        true),
{ reveal(wf_ExprMetaProperty); }
pub broadcast proof fn d_ExprNew(x: ExprNew, c: Cx)
    ensures #[trigger] wf_ExprNew(x, c) == (
        (wf_Expr((*x.callee), c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))),
{ reveal(wf_Argument); reveal(wf_Expr); reveal(wf_ExprNew); }
pub broadcast proof fn d_ExprOptionalCall(x: ExprOptionalCall, c: Cx)
    ensures #[trigger] wf_ExprOptionalCall(x, c) == (
        (wf_Expr((*x.callee), c))
        && (forall|v1: int| 0 <= v1 < x.arguments.len() ==> wf_Argument(#[trigger] x.arguments[v1], c))),
{ reveal(wf_Argument); reveal(wf_Expr); reveal(wf_ExprOptionalCall); }
pub broadcast proof fn d_ExprOptionalMember(x: ExprOptionalMember, c: Cx)
    ensures #[trigger] wf_ExprOptionalMember(x, c) == (
        (wf_Expr((*x.object), c))
        && (wf_MemberProperty(x.property, c))),
{ reveal(wf_Expr); reveal(wf_ExprOptionalMember); reveal(wf_MemberProperty); }
pub broadcast proof fn d_ExprParenthesized(x: ExprParenthesized, c: Cx)
    ensures #[trigger] wf_ExprParenthesized(x, c) == (
        (wf_Expr((*x.expression), c))),
{ reveal(wf_Expr); reveal(wf_ExprParenthesized); }
pub broadcast proof fn d_ExprSequence(x: ExprSequence, c: Cx)
    ensures #[trigger] wf_ExprSequence(x, c) == (
        (forall|v1: int| 0 <= v1 < x.expr.len() ==> wf_Expr(#[trigger] x.expr[v1], c))),
{ reveal(wf_Expr); reveal(wf_ExprSequence); }
pub broadcast proof fn d_ExprTaggedTemplate(x: ExprTaggedTemplate, c: Cx)
    ensures #[trigger] wf_ExprTaggedTemplate(x, c) == (
        (wf_Expr((*x.callee), c))
        && (wf_LitTemplate(x.template, c))),
{ reveal(wf_Expr); reveal(wf_ExprTaggedTemplate); reveal(wf_LitTemplate); }
pub broadcast proof fn d_ExprUnary(x: ExprUnary, c: Cx)
    ensures #[trigger] wf_ExprUnary(x, c) == (
        (wf_Expr((*x.argument), c))),
{ reveal(wf_Expr); reveal(wf_ExprUnary); }
pub broadcast proof fn d_ExprUpdate(x: ExprUpdate, c: Cx)
    ensures #[trigger] wf_ExprUpdate(x, c) == (
        (wf_Expr((*x.argument), c))),
{ reveal(wf_Expr); reveal(wf_ExprUpdate); }
pub broadcast proof fn d_ExprYield(x: ExprYield, c: Cx)
    ensures #[trigger] wf_ExprYield(x, c) == (
        (x.argument matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_Expr); reveal(wf_ExprYield); }
pub broadcast proof fn d_ForBinding(x: ForBinding, c: Cx)
    ensures #[trigger] wf_ForBinding(x, c) == (
        (wf_BindingPattern(x.binding, c))),
{ reveal(wf_BindingPattern); reveal(wf_ForBinding); }
pub broadcast proof fn d_ForDeclaration_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_ForDeclaration(ForDeclaration::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_ForDeclaration); }
pub broadcast proof fn d_ForDeclaration_AssignmentPattern(y: AssignmentPattern, c: Cx)
    ensures #[trigger] wf_ForDeclaration(ForDeclaration::AssignmentPattern(y), c) == (wf_AssignmentPattern(y, c)),
{ reveal(wf_AssignmentPattern); reveal(wf_ForDeclaration); }
pub broadcast proof fn d_ForDeclaration_Declaration(y: ForBinding, c: Cx)
    ensures #[trigger] wf_ForDeclaration(ForDeclaration::Declaration(y), c) == (wf_ForBinding(y, c)),
{ reveal(wf_ForBinding); reveal(wf_ForDeclaration); }
pub broadcast proof fn d_ForInit_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_ForInit(ForInit::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_ForInit); }
pub broadcast proof fn d_ForInit_Declaration(y: StmtVariable, c: Cx)
    ensures #[trigger] wf_ForInit(ForInit::Declaration(y), c) == (wf_StmtVariable(y, c)),
{ reveal(wf_ForInit); reveal(wf_StmtVariable); }
pub broadcast proof fn d_FormalParameters(x: FormalParameters, c: Cx)
    ensures #[trigger] wf_FormalParameters(x, c) == (
        (forall|v1: int| 0 <= v1 < x.bindings.len() ==> wf_BindingElement(#[trigger] x.bindings[v1], c))
        && (x.rest matches Some(v2) ==> wf_BindingPattern((*v2), c))),
{ reveal(wf_BindingElement); reveal(wf_BindingPattern); reveal(wf_FormalParameters); }
pub broadcast proof fn d_Ident(x: Ident, c: Cx)
    ensures #[trigger] wf_Ident(x, c) == (
        (wid(x.name@, c))),
{ reveal(wf_Ident); }
pub broadcast proof fn d_LitArray(x: LitArray, c: Cx)
    ensures #[trigger] wf_LitArray(x, c) == (
        (forall|v1: int| 0 <= v1 < x.elements.len() ==> wf_ArrayElement(#[trigger] x.elements[v1], c))),
{ reveal(wf_ArrayElement); reveal(wf_LitArray); }
pub broadcast proof fn d_LitObject(x: LitObject, c: Cx)
    ensures #[trigger] wf_LitObject(x, c) == (
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_PropertyDefinition(#[trigger] x.props[v1], c))),
{ reveal(wf_LitObject); reveal(wf_PropertyDefinition); }
pub broadcast proof fn d_LitTemplate(x: LitTemplate, c: Cx)
    ensures #[trigger] wf_LitTemplate(x, c) == (
        (forall|v1: int| 0 <= v1 < x.parts.len() ==> wf_TemplatePart(#[trigger] x.parts[v1], c))),
{ reveal(wf_LitTemplate); reveal(wf_TemplatePart); }
pub broadcast proof fn d_Literal_Null(c: Cx)
    ensures #[trigger] wf_Literal(Literal::Null, c) == (true),
{ reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Boolean(y: bool, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Boolean(y), c) == (true),
{ reveal(wf_Literal); }
pub broadcast proof fn d_Literal_String(y: LitString, c: Cx)
    ensures #[trigger] wf_Literal(Literal::String(y), c) == (true),
{ reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Number(y: LitNumber, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Number(y), c) == (true),
{ reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Array(y: LitArray, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Array(y), c) == (wf_LitArray(y, c)),
{ reveal(wf_LitArray); reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Object(y: LitObject, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Object(y), c) == (wf_LitObject(y, c)),
{ reveal(wf_LitObject); reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Regexp(y: String, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Regexp(y), c) == (true),
{ reveal(wf_Literal); }
pub broadcast proof fn d_Literal_Template(y: LitTemplate, c: Cx)
    ensures #[trigger] wf_Literal(Literal::Template(y), c) == (wf_LitTemplate(y, c)),
{ reveal(wf_LitTemplate); reveal(wf_Literal); }
pub broadcast proof fn d_MemberObject_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_MemberObject(MemberObject::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_MemberObject); }
pub broadcast proof fn d_MemberObject_Super(y: Super, c: Cx)
    ensures #[trigger] wf_MemberObject(MemberObject::Super(y), c) == (true),
{ reveal(wf_MemberObject); }
pub broadcast proof fn d_MemberProperty_Ident(y: Ident, c: Cx)
    ensures #[trigger] wf_MemberProperty(MemberProperty::Ident(y), c) == (true),
{ reveal(wf_MemberProperty); }
pub broadcast proof fn d_MemberProperty_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_MemberProperty(MemberProperty::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_MemberProperty); }
pub broadcast proof fn d_MethodDefinition(x: MethodDefinition, c: Cx)
    ensures #[trigger] wf_MethodDefinition(x, c) == (
        (wf_PropertyName(x.name, c))
        && (wf_FormalParameters(x.parameters, fun(c, x.asynchronous, false)))
        && (wf_Body(x.body, fun(c, x.asynchronous, x.generator)))),
{ reveal(wf_Body); reveal(wf_FormalParameters); reveal(wf_MethodDefinition); reveal(wf_PropertyName); }
pub broadcast proof fn d_NamedAssignmentProp(x: NamedAssignmentProp, c: Cx)
    ensures #[trigger] wf_NamedAssignmentProp(x, c) == (
        (wf_PropertyName(x.name, c))
        && (wf_PatternOrExpr((*x.value), c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_Expr); reveal(wf_NamedAssignmentProp); reveal(wf_PatternOrExpr); reveal(wf_PropertyName); }
pub broadcast proof fn d_NamedBinding(x: NamedBinding, c: Cx)
    ensures #[trigger] wf_NamedBinding(x, c) == (
        (wf_PropertyName(x.property, c))
        && (wf_BindingElement(x.binding, c))),
{ reveal(wf_BindingElement); reveal(wf_NamedBinding); reveal(wf_PropertyName); }
pub broadcast proof fn d_NamedExport(x: NamedExport, c: Cx)
    ensures #[trigger] wf_NamedExport(x, c) == (
        true),
{ reveal(wf_NamedExport); }
pub broadcast proof fn d_NamedImport(x: NamedImport, c: Cx)
    ensures #[trigger] wf_NamedImport(x, c) == (
        (x.alias is None ==> wf_Ident(x.name, c))
        && (x.alias matches Some(v1) ==> wf_Ident(v1, c))),
{ reveal(wf_Ident); reveal(wf_NamedImport); }
pub broadcast proof fn d_NamedProperty(x: NamedProperty, c: Cx)
    ensures #[trigger] wf_NamedProperty(x, c) == (
        (wf_PropertyName(x.name, c))
        && (wf_Expr(x.value, c))),
{ reveal(wf_Expr); reveal(wf_NamedProperty); reveal(wf_PropertyName); }
pub broadcast proof fn d_ObjectAssignmentPattern(x: ObjectAssignmentPattern, c: Cx)
    ensures #[trigger] wf_ObjectAssignmentPattern(x, c) == (
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_AssignmentProp(#[trigger] x.props[v1], c))
        && (x.rest matches Some(v2) ==> wf_PatternOrExpr((*v2), c))),
{ reveal(wf_AssignmentProp); reveal(wf_ObjectAssignmentPattern); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_ObjectBinding(x: ObjectBinding, c: Cx)
    ensures #[trigger] wf_ObjectBinding(x, c) == (
        (forall|v1: int| 0 <= v1 < x.props.len() ==> wf_ObjectBindingProp(#[trigger] x.props[v1], c))
        && (x.rest matches Some(v2) ==> wf_BindingPattern((*v2), c))),
{ reveal(wf_BindingPattern); reveal(wf_ObjectBinding); reveal(wf_ObjectBindingProp); }
pub broadcast proof fn d_ObjectBindingProp_Single(y: SingleNameBinding, c: Cx)
    ensures #[trigger] wf_ObjectBindingProp(ObjectBindingProp::Single(y), c) == (wf_SingleNameBinding(y, c)),
{ reveal(wf_ObjectBindingProp); reveal(wf_SingleNameBinding); }
pub broadcast proof fn d_ObjectBindingProp_Named(y: NamedBinding, c: Cx)
    ensures #[trigger] wf_ObjectBindingProp(ObjectBindingProp::Named(y), c) == (wf_NamedBinding(y, c)),
{ reveal(wf_NamedBinding); reveal(wf_ObjectBindingProp); }
pub broadcast proof fn d_PatternOrExpr_Expr(y: Expr, c: Cx)
    ensures #[trigger] wf_PatternOrExpr(PatternOrExpr::Expr(y), c) == (wf_Expr(y, c)),
{ reveal(wf_Expr); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_PatternOrExpr_AssignmentPattern(y: AssignmentPattern, c: Cx)
    ensures #[trigger] wf_PatternOrExpr(PatternOrExpr::AssignmentPattern(y), c) == (wf_AssignmentPattern(y, c)),
{ reveal(wf_AssignmentPattern); reveal(wf_PatternOrExpr); }
pub broadcast proof fn d_PropertyDefinition_IdentRef(y: Ident, c: Cx)
    ensures #[trigger] wf_PropertyDefinition(PropertyDefinition::IdentRef(y), c) == (wf_Ident(y, c)),
{ reveal(wf_Ident); reveal(wf_PropertyDefinition); }
pub broadcast proof fn d_PropertyDefinition_Spread(y: Expr, c: Cx)
    ensures #[trigger] wf_PropertyDefinition(PropertyDefinition::Spread(y), c) == (wf_Expr(y, c)),
{ reveal(wf_Expr); reveal(wf_PropertyDefinition); }
pub broadcast proof fn d_PropertyDefinition_Named(y: NamedProperty, c: Cx)
    ensures #[trigger] wf_PropertyDefinition(PropertyDefinition::Named(y), c) == (wf_NamedProperty(y, c)),
{ reveal(wf_NamedProperty); reveal(wf_PropertyDefinition); }
pub broadcast proof fn d_PropertyDefinition_Method(y: MethodDefinition, c: Cx)
    ensures #[trigger] wf_PropertyDefinition(PropertyDefinition::Method(y), c) == (wf_MethodDefinition(y, c)),
{ reveal(wf_MethodDefinition); reveal(wf_PropertyDefinition); }
pub broadcast proof fn d_PropertyName_Ident(y: Ident, c: Cx)
    ensures #[trigger] wf_PropertyName(PropertyName::Ident(y), c) == (true),
{ reveal(wf_PropertyName); }
pub broadcast proof fn d_PropertyName_String(y: LitString, c: Cx)
    ensures #[trigger] wf_PropertyName(PropertyName::String(y), c) == (true),
{ reveal(wf_PropertyName); }
pub broadcast proof fn d_PropertyName_Number(y: LitNumber, c: Cx)
    ensures #[trigger] wf_PropertyName(PropertyName::Number(y), c) == (true),
{ reveal(wf_PropertyName); }
pub broadcast proof fn d_PropertyName_Computed(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_PropertyName(PropertyName::Computed(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_PropertyName); }
pub broadcast proof fn d_SingleNameAssignmentProp(x: SingleNameAssignmentProp, c: Cx)
    ensures #[trigger] wf_SingleNameAssignmentProp(x, c) == (
        (wf_Ident(x.ident, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_Expr); reveal(wf_Ident); reveal(wf_SingleNameAssignmentProp); }
pub broadcast proof fn d_SingleNameBinding(x: SingleNameBinding, c: Cx)
    ensures #[trigger] wf_SingleNameBinding(x, c) == (
        (wf_Ident(x.ident, c))
        && (x.initializer matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_Expr); reveal(wf_Ident); reveal(wf_SingleNameBinding); }
pub broadcast proof fn d_Stmt_Block(y: StmtBlock, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Block(y), c) == (wf_StmtBlock(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtBlock); }
pub broadcast proof fn d_Stmt_Break(y: StmtBreak, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Break(y), c) == (wf_StmtBreak(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtBreak); }
pub broadcast proof fn d_Stmt_Continue(y: StmtContinue, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Continue(y), c) == (wf_StmtContinue(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtContinue); }
pub broadcast proof fn d_Stmt_Debugger(y: StmtDebugger, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Debugger(y), c) == (true),
{ reveal(wf_Stmt); }
pub broadcast proof fn d_Stmt_DoWhile(y: StmtDoWhile, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::DoWhile(y), c) == (wf_StmtDoWhile(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtDoWhile); }
pub broadcast proof fn d_Stmt_Empty(y: StmtEmpty, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Empty(y), c) == (true),
{ reveal(wf_Stmt); }
pub broadcast proof fn d_Stmt_Expr(y: StmtExpr, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Expr(y), c) == (wf_StmtExpr(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtExpr); }
pub broadcast proof fn d_Stmt_For(y: StmtFor, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::For(y), c) == (wf_StmtFor(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtFor); }
pub broadcast proof fn d_Stmt_ForIn(y: StmtForIn, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::ForIn(y), c) == (wf_StmtForIn(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtForIn); }
pub broadcast proof fn d_Stmt_ForOf(y: StmtForOf, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::ForOf(y), c) == (wf_StmtForOf(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtForOf); }
pub broadcast proof fn d_Stmt_If(y: StmtIf, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::If(y), c) == (wf_StmtIf(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtIf); }
pub broadcast proof fn d_Stmt_Labeled(y: StmtLabeled, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Labeled(y), c) == (wf_StmtLabeled(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtLabeled); }
pub broadcast proof fn d_Stmt_Return(y: StmtReturn, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Return(y), c) == (wf_StmtReturn(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtReturn); }
pub broadcast proof fn d_Stmt_Switch(y: StmtSwitch, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Switch(y), c) == (wf_StmtSwitch(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtSwitch); }
pub broadcast proof fn d_Stmt_Throw(y: StmtThrow, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Throw(y), c) == (wf_StmtThrow(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtThrow); }
pub broadcast proof fn d_Stmt_Try(y: StmtTry, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Try(y), c) == (wf_StmtTry(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtTry); }
pub broadcast proof fn d_Stmt_Variable(y: StmtVariable, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::Variable(y), c) == (wf_StmtVariable(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtVariable); }
pub broadcast proof fn d_Stmt_While(y: StmtWhile, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::While(y), c) == (wf_StmtWhile(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtWhile); }
pub broadcast proof fn d_Stmt_With(y: StmtWith, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::With(y), c) == (wf_StmtWith(y, c)),
{ reveal(wf_Stmt); reveal(wf_StmtWith); }
pub broadcast proof fn d_Stmt_ClassDecl(y: DeclClass, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::ClassDecl(y), c) == (wf_DeclClass(y, c)),
{ reveal(wf_DeclClass); reveal(wf_Stmt); }
pub broadcast proof fn d_Stmt_FunctionDecl(y: DeclFunction, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::FunctionDecl(y), c) == (wf_DeclFunction(y, c)),
{ reveal(wf_DeclFunction); reveal(wf_Stmt); }
pub broadcast proof fn d_Stmt_ImportDecl(y: DeclImport, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::ImportDecl(y), c) == (wf_DeclImport(y, c)),
{ reveal(wf_DeclImport); reveal(wf_Stmt); }
pub broadcast proof fn d_Stmt_ExportDecl(y: DeclExport, c: Cx)
    ensures #[trigger] wf_Stmt(Stmt::ExportDecl(y), c) == (wf_DeclExport(y, c)),
{ reveal(wf_DeclExport); reveal(wf_Stmt); }
pub broadcast proof fn d_StmtBlock(x: StmtBlock, c: Cx)
    ensures #[trigger] wf_StmtBlock(x, c) == (
        (forall|v1: int| 0 <= v1 < x.statements.len() ==> wf_Stmt(#[trigger] x.statements[v1], c))),
{ reveal(wf_Stmt); reveal(wf_StmtBlock); }
pub broadcast proof fn d_StmtBreak(x: StmtBreak, c: Cx)
    ensures #[trigger] wf_StmtBreak(x, c) == (
        (x.label matches Some(v1) ==> wf_Ident(v1, c))),
{ reveal(wf_Ident); reveal(wf_StmtBreak); }
pub broadcast proof fn d_StmtContinue(x: StmtContinue, c: Cx)
    ensures #[trigger] wf_StmtContinue(x, c) == (
        (x.label matches Some(v1) ==> wf_Ident(v1, c))),
{ reveal(wf_Ident); reveal(wf_StmtContinue); }
pub broadcast proof fn d_StmtDoWhile(x: StmtDoWhile, c: Cx)
    ensures #[trigger] wf_StmtDoWhile(x, c) == (
        (wf_Stmt((*x.body), c))
        && (wf_Expr((*x.test), c))),
{ reveal(wf_Expr); reveal(wf_Stmt); reveal(wf_StmtDoWhile); }
pub broadcast proof fn d_StmtExpr(x: StmtExpr, c: Cx)
    ensures #[trigger] wf_StmtExpr(x, c) == (
        (wf_Expr((*x.expr), c))),
{ reveal(wf_Expr); reveal(wf_StmtExpr); }
pub broadcast proof fn d_StmtFor(x: StmtFor, c: Cx)
    ensures #[trigger] wf_StmtFor(x, c) == (
        (x.init matches Some(v1) ==> wf_ForInit(v1, c))
        && (x.test matches Some(v2) ==> wf_Expr((*v2), c))
        && (x.update matches Some(v3) ==> wf_Expr((*v3), c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Expr); reveal(wf_ForInit); reveal(wf_Stmt); reveal(wf_StmtFor); }
pub broadcast proof fn d_StmtForIn(x: StmtForIn, c: Cx)
    ensures #[trigger] wf_StmtForIn(x, c) == (
        (wf_ForDeclaration(x.left, c))
        && (wf_Expr((*x.right), c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Expr); reveal(wf_ForDeclaration); reveal(wf_Stmt); reveal(wf_StmtForIn); }
pub broadcast proof fn d_StmtForOf(x: StmtForOf, c: Cx)
    ensures #[trigger] wf_StmtForOf(x, c) == (
        (wf_ForDeclaration(x.left, c))
        && (wf_Expr((*x.right), c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Expr); reveal(wf_ForDeclaration); reveal(wf_Stmt); reveal(wf_StmtForOf); }
pub broadcast proof fn d_StmtIf(x: StmtIf, c: Cx)
    ensures #[trigger] wf_StmtIf(x, c) == (
        (wf_Expr((*x.condition), c))
        && (wf_Stmt((*x.consequent), c))
        && (x.alternate matches Some(v1) ==> wf_Stmt((*v1), c))),
{ reveal(wf_Expr); reveal(wf_Stmt); reveal(wf_StmtIf); }
pub broadcast proof fn d_StmtLabeled(x: StmtLabeled, c: Cx)
    ensures #[trigger] wf_StmtLabeled(x, c) == (
        (wf_Ident(x.label, c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Ident); reveal(wf_Stmt); reveal(wf_StmtLabeled); }
pub broadcast proof fn d_StmtReturn(x: StmtReturn, c: Cx)
    ensures #[trigger] wf_StmtReturn(x, c) == (
        (x.argument matches Some(v1) ==> wf_Expr((*v1), c))),
{ reveal(wf_Expr); reveal(wf_StmtReturn); }
pub broadcast proof fn d_StmtSwitch(x: StmtSwitch, c: Cx)
    ensures #[trigger] wf_StmtSwitch(x, c) == (
        (wf_Expr((*x.discriminant), c))
        && (forall|v1: int| 0 <= v1 < x.cases.len() ==> wf_SwitchCase(#[trigger] x.cases[v1], c))),
{ reveal(wf_Expr); reveal(wf_StmtSwitch); reveal(wf_SwitchCase); }
pub broadcast proof fn d_StmtThrow(x: StmtThrow, c: Cx)
    ensures #[trigger] wf_StmtThrow(x, c) == (
        (wf_Expr((*x.argument), c))),
{ reveal(wf_Expr); reveal(wf_StmtThrow); }
pub broadcast proof fn d_StmtTry(x: StmtTry, c: Cx)
    ensures #[trigger] wf_StmtTry(x, c) == (
        (wf_StmtBlock(x.block, c))
        && (x.handler matches Some(v1) ==> wf_CatchClause((*v1), c))
        && (x.finalizer matches Some(v2) ==> wf_StmtBlock(v2, c))),
{ reveal(wf_CatchClause); reveal(wf_StmtBlock); reveal(wf_StmtTry); }
pub broadcast proof fn d_StmtVariable(x: StmtVariable, c: Cx)
    ensures #[trigger] wf_StmtVariable(x, c) == (
        (forall|v1: int| 0 <= v1 < x.declarations.len() ==> wf_VariableDeclaration(#[trigger] x.declarations[v1], c))),
{ reveal(wf_StmtVariable); reveal(wf_VariableDeclaration); }
pub broadcast proof fn d_StmtWhile(x: StmtWhile, c: Cx)
    ensures #[trigger] wf_StmtWhile(x, c) == (
        (wf_Expr((*x.test), c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Expr); reveal(wf_Stmt); reveal(wf_StmtWhile); }
pub broadcast proof fn d_StmtWith(x: StmtWith, c: Cx)
    ensures #[trigger] wf_StmtWith(x, c) == (
        (wf_Expr((*x.object), c))
        && (wf_Stmt((*x.body), c))),
{ reveal(wf_Expr); reveal(wf_Stmt); reveal(wf_StmtWith); }
pub broadcast proof fn d_SwitchCase(x: SwitchCase, c: Cx)
    ensures #[trigger] wf_SwitchCase(x, c) == (
        (x.test matches Some(v1) ==> wf_Expr(v1, c))
        && (forall|v2: int| 0 <= v2 < x.consequent.len() ==> wf_Stmt(#[trigger] x.consequent[v2], c))),
{ reveal(wf_Expr); reveal(wf_Stmt); reveal(wf_SwitchCase); }
pub broadcast proof fn d_TemplatePart_String(y: String, c: Cx)
    ensures #[trigger] wf_TemplatePart(TemplatePart::String(y), c) == (true),
{ reveal(wf_TemplatePart); }
pub broadcast proof fn d_TemplatePart_Expr(y: Box<Expr>, c: Cx)
    ensures #[trigger] wf_TemplatePart(TemplatePart::Expr(y), c) == (wf_Expr((*y), c)),
{ reveal(wf_Expr); reveal(wf_TemplatePart); }
pub broadcast proof fn d_VariableDeclaration(x: VariableDeclaration, c: Cx)
    ensures #[trigger] wf_VariableDeclaration(x, c) == (
        (wf_BindingPattern(x.pattern, c))
        && (x.initializer matches Some(v1) ==> wf_Expr(v1, c))),
{ reveal(wf_BindingPattern); reveal(wf_Expr); reveal(wf_VariableDeclaration); }
pub open spec fn rest_PatternOrExpr(x: Option<Box<PatternOrExpr>>, c: Cx) -> bool { x matches Some(y) ==> wf_PatternOrExpr(*y, c) }
pub open spec fn rest_BindingPattern(x: Option<Box<BindingPattern>>, c: Cx) -> bool { x matches Some(y) ==> wf_BindingPattern(*y, c) }
pub open spec fn rest_param(x: Option<BindingPattern>, c: Cx) -> bool { x matches Some(y) ==> wf_BindingPattern(y, c) }
pub broadcast group group_tree { d_Argument_Expr, d_Argument_Spread, d_ArrayAssignmentPattern, d_ArrayBinding, d_ArrayElement_Elision, d_ArrayElement_Expr, d_ArrayElement_Spread, d_ArrowFunctionBody_Expr, d_ArrowFunctionBody_Body, d_AssignmentElement, d_AssignmentPattern_Array, d_AssignmentPattern_Object, d_AssignmentProp_Single, d_AssignmentProp_Named, d_BindingElement, d_BindingPattern_Ident, d_BindingPattern_Array, d_BindingPattern_Object, d_Body, d_Callee_Super, d_Callee_Import, d_Callee_Expr, d_CatchClause, d_ClassElement_Method, d_DeclClass, d_DeclExport_Decl, d_DeclExport_DefaultExpr, d_DeclExport_DefaultDecl, d_DeclExport_Named, d_DeclExport_Namespace, d_DeclFunction, d_DeclImport, d_ExportDecl, d_ExportDefaultDecl, d_ExportDefaultExpr, d_ExportNamed, d_ExportNamespace, d_Expr_ArrowFunction, d_Expr_Assignment, d_Expr_Await, d_Expr_Binary, d_Expr_Call, d_Expr_Class, d_Expr_Conditional, d_Expr_Function, d_Expr_IdentRef, d_Expr_Literal, d_Expr_Logical, d_Expr_Member, d_Expr_MetaProperty, d_Expr_New, d_Expr_OptionalCall, d_Expr_OptionalMember, d_Expr_Parenthesized, d_Expr_Sequence, d_Expr_TaggedTemplate, d_Expr_This, d_Expr_Unary, d_Expr_Update, d_Expr_Yield, d_ExprArrowFunction, d_ExprAssignment, d_ExprAwait, d_ExprBinary, d_ExprCall, d_ExprClass, d_ExprConditional, d_ExprFunction, d_ExprLiteral, d_ExprLogical, d_ExprMember, d_ExprMetaProperty, d_ExprNew, d_ExprOptionalCall, d_ExprOptionalMember, d_ExprParenthesized, d_ExprSequence, d_ExprTaggedTemplate, d_ExprUnary, d_ExprUpdate, d_ExprYield, d_ForBinding, d_ForDeclaration_Expr, d_ForDeclaration_AssignmentPattern, d_ForDeclaration_Declaration, d_ForInit_Expr, d_ForInit_Declaration, d_FormalParameters, d_Ident, d_LitArray, d_LitObject, d_LitTemplate, d_Literal_Null, d_Literal_Boolean, d_Literal_String, d_Literal_Number, d_Literal_Array, d_Literal_Object, d_Literal_Regexp, d_Literal_Template, d_MemberObject_Expr, d_MemberObject_Super, d_MemberProperty_Ident, d_MemberProperty_Expr, d_MethodDefinition, d_NamedAssignmentProp, d_NamedBinding, d_NamedExport, d_NamedImport, d_NamedProperty, d_ObjectAssignmentPattern, d_ObjectBinding, d_ObjectBindingProp_Single, d_ObjectBindingProp_Named, d_PatternOrExpr_Expr, d_PatternOrExpr_AssignmentPattern, d_PropertyDefinition_IdentRef, d_PropertyDefinition_Spread, d_PropertyDefinition_Named, d_PropertyDefinition_Method, d_PropertyName_Ident, d_PropertyName_String, d_PropertyName_Number, d_PropertyName_Computed, d_SingleNameAssignmentProp, d_SingleNameBinding, d_Stmt_Block, d_Stmt_Break, d_Stmt_Continue, d_Stmt_Debugger, d_Stmt_DoWhile, d_Stmt_Empty, d_Stmt_Expr, d_Stmt_For, d_Stmt_ForIn, d_Stmt_ForOf, d_Stmt_If, d_Stmt_Labeled, d_Stmt_Return, d_Stmt_Switch, d_Stmt_Throw, d_Stmt_Try, d_Stmt_Variable, d_Stmt_While, d_Stmt_With, d_Stmt_ClassDecl, d_Stmt_FunctionDecl, d_Stmt_ImportDecl, d_Stmt_ExportDecl, d_StmtBlock, d_StmtBreak, d_StmtContinue, d_StmtDoWhile, d_StmtExpr, d_StmtFor, d_StmtForIn, d_StmtForOf, d_StmtIf, d_StmtLabeled, d_StmtReturn, d_StmtSwitch, d_StmtThrow, d_StmtTry, d_StmtVariable, d_StmtWhile, d_StmtWith, d_SwitchCase, d_TemplatePart_String, d_TemplatePart_Expr, d_VariableDeclaration, lemma_fn_expr, lemma_fn_decl, lemma_fn_method }
}
}
