PRE = '''
/// what decides whether a keyword may be an identifier
pub struct Cx { pub a: bool, pub y: bool, pub strict: bool }
pub open spec fn cx(c: crate::fajt_parser::Context) -> Cx { Cx { a: c.is_await, y: c.is_yield, strict: c.is_strict } }
/// an identifier is not a keyword, or one that may be an identifier here
#[verifier::opaque]
pub open spec fn wid(n: Seq<char>, c: Cx) -> bool { forall|k: Keyword| #[trigger] k.text() == n ==> crate::lx::ident_allowed(k, c.a, c.y, c.strict) }
pub open spec fn strict(c: Cx) -> Cx { Cx { strict: true, ..c } }
pub open spec fn fun(c: Cx, a: bool, y: bool) -> Cx { Cx { a: a, y: y, strict: c.strict } }
/// a "use strict" directive
#[verifier::opaque]
pub open spec fn use_strict(d: Seq<LitString>) -> bool { exists|i: int| 0 <= i < d.len() && #[trigger] d[i].value@ == "use strict"@ }
pub open spec fn body(c: Cx, d: Seq<LitString>) -> Cx { Cx { strict: c.strict || use_strict(d), ..c } }
pub open spec fn prog(p: Program, c: Cx) -> bool {
    match p {
        Program::Script(l) => stmts(l.body@, body(c, l.directives@)),
        Program::Module(l) => stmts(l.body@, strict(c)),
    }
}
pub open spec fn stmts(s: Seq<Stmt>, c: Cx) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] wf_Stmt(s[i], c) }
pub trait VxTree11: crate::w12::VxTree12 { spec fn tree11(self, c: Cx, module: bool) -> bool; }
impl VxTree11 for Expr { open spec fn tree11(self, c: Cx, module: bool) -> bool { wf_Expr(self, none()) } }
impl VxTree11 for Stmt { open spec fn tree11(self, c: Cx, module: bool) -> bool { wf_Stmt(self, c) } }
impl VxTree11 for Program { open spec fn tree11(self, c: Cx, module: bool) -> bool { (self is Module <==> module) && prog(self, c) } }
pub open spec fn none() -> Cx { Cx { a: false, y: false, strict: false } }
'''
EXTRA = ["lemma_fn_expr", "lemma_fn_decl", "lemma_fn_method"]
LOCAL["Ident"] = "wid(x.name@, c)"
# names of properties, members and exports are not identifiers
for f in ("MemberProperty.Ident", "PropertyName.Ident", "ExprMetaProperty.meta", "ExprMetaProperty.property", "NamedExport.name", "NamedExport.alias_of", "ExportNamespace.alias"):
    CTX[f] = None
CTX["NamedImport.name"] = "=(x.alias is None ==> wf_Ident(x.name, c))"
for f in ("identifier", "parameters", "body"):
    CTX["ExprFunction." + f] = "fun(c, x.asynchronous, x.generator)"
for f in ("parameters", "body"):
    CTX["DeclFunction." + f] = "fun(c, x.asynchronous, x.generator)"
CTX["ExprArrowFunction.body"] = "fun(c, x.asynchronous, false)"
CTX["Body.statements"] = "body(c, x.directives@)"
CTX["MethodDefinition.parameters"] = "fun(c, x.asynchronous, false)"
CTX["MethodDefinition.body"] = "fun(c, x.asynchronous, x.generator)"
for t in ("DeclClass", "ExprClass"):
    for f in ("identifier", "super_class", "body"): CTX[t + "." + f] = "strict(c)"
PRE += '''
pub broadcast proof fn lemma_plain_lit(l: Literal, c: Cx)
    requires crate::ps::plain_lit(l),
    ensures #[trigger] wf_Literal(l, c),
{
    broadcast use group_tree;
    reveal(crate::ps::all_text);
    if l is Template { let t = l->Template_0; assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)); } }
    match l { Literal::Null => { assert(wf_Literal(Literal::Null, c)); } Literal::Boolean(y) => { assert(wf_Literal(Literal::Boolean(y), c)); } Literal::String(y) => { assert(wf_Literal(Literal::String(y), c)); } Literal::Number(y) => { assert(wf_Literal(Literal::Number(y), c)); } Literal::Regexp(y) => { assert(wf_Literal(Literal::Regexp(y), c)); } Literal::Template(y) => { assert(wf_LitTemplate(y, c)); assert(wf_Literal(Literal::Template(y), c)); } _ => {} }
}
/// a function as parsed under its own context `k`
#[verifier::opaque]
pub open spec fn fn_expr(x: Expr, k: Cx) -> bool { x is Function && x->Function_0.asynchronous == k.a && x->Function_0.generator == k.y && wf_ExprFunction(x->Function_0, k) }
#[verifier::opaque]
pub open spec fn fn_decl(x: Stmt, n: Ident, k: Cx) -> bool { x is FunctionDecl && { let f = x->FunctionDecl_0; f.identifier == n && f.asynchronous == k.a && f.generator == k.y && wf_FormalParameters(f.parameters, k) && wf_Body(f.body, k) } }
#[verifier::opaque]
pub open spec fn fn_method(x: MethodDefinition, n: PropertyName, k: Cx) -> bool { x.name == n && x.asynchronous == k.a && x.generator == k.y && wf_FormalParameters(x.parameters, fun(k, k.a, false)) && wf_Body(x.body, k) }
pub broadcast proof fn lemma_fn_expr(x: Expr, k: Cx, c: Cx)
    requires #[trigger] fn_expr(x, k), k.strict == c.strict,
    ensures #[trigger] wf_Expr(x, c),
{ reveal(fn_expr); let f = x->Function_0; d_ExprFunction(f, k); d_ExprFunction(f, c); d_Expr_Function(f, c); assert(fun(k, k.a, k.y) == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_decl(x: Stmt, n: Ident, k: Cx, c: Cx)
    requires #[trigger] fn_decl(x, n, k), k.strict == c.strict, wf_Ident(n, c),
    ensures #[trigger] wf_Stmt(x, c),
{ reveal(fn_decl); let f = x->FunctionDecl_0; d_DeclFunction(f, c); d_Stmt_FunctionDecl(f, c); assert(k == fun(c, k.a, k.y)); }
pub broadcast proof fn lemma_fn_method(x: MethodDefinition, n: PropertyName, k: Cx, c: Cx)
    requires #[trigger] fn_method(x, n, k), k.strict == c.strict, wf_PropertyName(n, c),
    ensures #[trigger] wf_MethodDefinition(x, c),
{ reveal(fn_method); d_MethodDefinition(x, c); assert(k == fun(c, k.a, k.y)); assert(fun(k, k.a, false) == fun(c, k.a, false)); }
pub broadcast proof fn lemma_all_text(t: LitTemplate, c: Cx)
    requires crate::ps::all_text(t),
    ensures #[trigger] wf_LitTemplate(t, c),
{ reveal(crate::ps::all_text); assert forall|i: int| 0 <= i < t.parts@.len() implies wf_TemplatePart(#[trigger] t.parts@[i], c) by { let p = t.parts@[i]; assert(p is String); assert(wf_TemplatePart(TemplatePart::String(p->String_0), c)) by { reveal(wf_TemplatePart); } }; assert(wf_LitTemplate(t, c)) by { reveal(wf_LitTemplate); reveal(wf_TemplatePart); } }
pub broadcast proof fn lemma_not_kw(n: Seq<char>, c: Cx)
    requires crate::ps::not_kw(n),
    ensures #[trigger] wid(n, c),
{ reveal(wid); reveal(crate::ps::not_kw); }
pub broadcast proof fn lemma_kw(k: Keyword, c: Cx)
    ensures #[trigger] wid(k.text(), c) == crate::lx::ident_allowed(k, c.a, c.y, c.strict),
{
    reveal(wid);
    if crate::lx::ident_allowed(k, c.a, c.y, c.strict) { assert forall|j: Keyword| #[trigger] j.text() == k.text() implies crate::lx::ident_allowed(j, c.a, c.y, c.strict) by { crate::tables::lemma_keyword_inj(j, k); } }
}
pub broadcast proof fn lemma_empty(n: Seq<char>, c: Cx)
    requires n.len() == 0,
    ensures #[trigger] wid(n, c),
{ reveal(wid); assert forall|j: Keyword| #[trigger] j.text() == n implies crate::lx::ident_allowed(j, c.a, c.y, c.strict) by { crate::tables::lemma_kw_nonempty(j); } }
'''
CX_ = "crate::w11::cx(old(self).context)"
FNS = ["== fn parser::Parser::parse_identifier\nbegin[C11]: broadcast use crate::w11::lemma_not_kw; broadcast use crate::w11::lemma_kw;",
"== fn parser::Parser::parse_function_identifier parser::Parser::parse_optional_class_identifier\nbegin[C11]: broadcast use crate::w11::lemma_empty;",
"== fn ast::Ident::dummy\nens[C11]: r.name@.len() == 0\nbegin[C11]: broadcast use crate::vx::axiom_into_string; broadcast use crate::vx::axiom_into_string_obeys; proof { reveal_strlit(\"\"); }",
"== fn parser::Parser::parse_function_expr_content\nuntag: .tree .tarrow\nbegin[C11]: reveal(crate::w11::fn_expr);\nens[C11]: r matches Ok(x) ==> crate::w11::fn_expr(x, %s)" % CX_,
"== fn parser::Parser::parse_function_decl_content\nuntag: .tree .tarrow\nbegin[C11]: reveal(crate::w11::fn_decl);\nens[C11]: r matches Ok(x) ==> crate::w11::fn_decl(x, identifier, %s)" % CX_,
"== fn parser::Parser::parse_method\nuntag: .tree .tarrow\nbegin[C11]: reveal(crate::w11::fn_method);\nens[C11]: r matches Ok(x) ==> crate::w11::fn_method(x, name, %s)" % CX_,
"== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method\nens[C11]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start >= old(self).v().pos())",
"== fn parser::DirectivePrologueSemantics@&[LitString]::contains_strict\nens[C11]: r == crate::w11::use_strict(self@)\ninv[C11]: $out == (exists|j: int| 0 <= j < vx_i1 && #[trigger] self@[j].value@ == \"use strict\"@) && 0 <= vx_i1 <= self@.len()\nbegin[C11]: reveal(crate::w11::use_strict);\nlbegin[C11]: reveal(crate::w11::use_strict);",
"== fn parser::Parser::parse_non_substitution_template\nbegin[C11]: broadcast use crate::w11::lemma_all_text;",
"== fn parser::Parser::parse_identifier_name\nbegin[C11]: reveal(crate::ps::id_tok);\nens[C11]: r matches Ok(x) ==> (old(self).v().cur matches Some(t) ==> (crate::ps::idc(t, old(self).context) ==> %s))\nbegin[C11]: broadcast use crate::w11::lemma_not_kw; broadcast use crate::w11::lemma_kw;" % "crate::w11::wf_Ident(x, crate::w11::cx(old(self).context))",
"== fn ast::Stmt::unwrap_block_stmt\nens: self == crate::fajt_ast::Stmt::Block(r)",
"== super parser::Parse crate::w11::VxTree11",
"== fn ast::Program::new\nens: (source_type == crate::fajt_ast::SourceType::Module ==> r == crate::fajt_ast::Program::Module(stmt_list)) && (source_type != crate::fajt_ast::SourceType::Module ==> r == crate::fajt_ast::Program::Script(stmt_list))",
"== fn parser::Parse::parse\nens[C11]: r matches Ok(x) ==> x.tree11(crate::w11::cx(old(parser).context), old(parser).source_type == crate::fajt_ast::SourceType::Module)",
"== fn parser::Parse@Program::parse\nbegin[C11]: broadcast use crate::w11::group_tree;",
"== fn parser::Parser::new\nens[C11]: r matches Ok(p) ==> crate::w11::cx(p.context) == crate::w11::none()",
"== fn parser::Parser::parse parser::parse\nens[C11]: r matches Ok(x) ==> x.tree11(crate::w11::none(), source_type == crate::fajt_ast::SourceType::Module)",
"== fn parser::parse_script\nens[C11]: r matches Ok(p) ==> p is Script && crate::w11::prog(p, crate::w11::none())",
"== fn parser::parse_module\nens[C11]: r matches Ok(p) ==> p is Module && crate::w11::prog(p, crate::w11::none())",
]
