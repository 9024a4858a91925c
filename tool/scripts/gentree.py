#!/usr/bin/env python3
"""Writes specs/60_ident.rs (C11) or specs/70_early.rs (C12): predicates over whole syntax trees, from the node types.

The predicate of a node is the conjunction of its own condition (LOCAL) and the predicates of its children, each under
the context the grammar gives it (CTX; a child not named there is under its parent's context).  Run once by hand; the
result is committed.  usage: gentree.py ident|early OUT.rs"""
import re, sys, glob
MODE, OUT = sys.argv[1], sys.argv[2]
src = "\n".join(open(f).read() for f in ("/repo/ast/src/expr.rs", "/repo/ast/src/assignment.rs", "/repo/ast/src/binding.rs", "/repo/ast/src/class.rs", "/repo/ast/src/literal.rs", "/repo/ast/src/method.rs", "/repo/ast/src/stmt.rs", "/repo/ast/src/lib.rs"))
src = re.sub(r"//[^\n]*", "", src)
src = re.sub(r"#\[[^\]]*\]", "", src)
structs, enums = {}, {}
for m in re.finditer(r"pub struct (\w+) \{([^}]*)\}", src):
    structs[m[1]] = re.findall(r"pub (\w+): ([^,]+(?:<[^;]*>)?),", m[2])
for m in re.finditer(r"pub enum (\w+) \{([^}]*)\}", src):
    enums[m[1]] = [(v, (t or None)) for v, t in re.findall(r"(\w+)(?:\(([^)]*)\))?,?", m[2])]
for d in (structs, enums):
    for k in ("SourceType", "Program"): d.pop(k, None)
def core(t):
    while True:
        m = re.match(r"(?:Box|Option|Vec)<(.*)>$", t)
        if not m: return t
        t = m[1]
tree = {"Ident"} if MODE == "ident" else {"Expr"}
LEAF = {"LitString", "LitNumber", "Super", "Span"}
change = True
while change:
    change = False
    for n, fs in structs.items():
        if n not in tree and n not in LEAF and any(core(t) in tree for _, t in fs): tree.add(n); change = True
    for n, vs in enums.items():
        if n not in tree and any(t and core(t) in tree for _, t in vs): tree.add(n); change = True
LOCAL, CTX, PRE = {}, {}, ""
exec(open(__file__.replace("gentree.py", "tree_%s.py" % MODE)).read())
for n in structs:
    if n in LOCAL and n not in tree: tree.add(n)
n_ = [0]
def child(e, t, k):
    """condition on the child expression `e` of type `t` under context `k`"""
    if core(t) not in tree or k is None: return None
    m = re.match(r"(Box|Option|Vec)<(.*)>$", t)
    if not m: return "wf_%s(%s, %s)" % (t, e, k)
    if m[1] == "Box":
        return child("(*%s)" % e, m[2], k)
    n_[0] += 1; v = "v%d" % n_[0]
    if m[1] == "Option":
        return "(%s matches Some(%s) ==> %s)" % (e, v, child(v, m[2], k))
    inner = child("%s[%s]" % (e, v), m[2], k)
    if m[2].startswith("Option"):
        inner = "(#[trigger] %s[%s] matches Some(o%s) ==> %s)" % (e, v, v, child("o%s" % v, m[2][7:-1], k))
    else:
        inner = inner.replace("%s[%s]" % (e, v), "#[trigger] %s[%s]" % (e, v), 1)
    return "(forall|%s: int| 0 <= %s < %s.len() ==> %s)" % (v, v, e, inner)
def rev(n, body): return " ".join("reveal(wf_%s);" % t for t in sorted({n} | set(re.findall(r"wf_(\w+)", body))))
out = []; lem = []; names = []
T = lambda n: n
for n in sorted(tree):
    if n in structs:
        n_[0] = 0
        cs = []
        if n in LOCAL: cs.append(LOCAL[n])
        for f, t in structs[n]:
            k = CTX.get(n + "." + f, "c")
            if isinstance(k, str) and k.startswith("="): cs.append(k[1:]); continue
            c = child("x." + f, t.strip(), k)
            if c: cs.append(c)
        body = "\n        && ".join("(%s)" % c if not c.startswith("(") else c for c in cs) or "true"
        out.append("#[verifier::opaque]\npub open spec fn wf_%s(x: %s, c: Cx) -> bool\n    decreases x,\n{\n        %s\n}" % (n, n, body))
        lem.append("pub broadcast proof fn d_%s(x: %s, c: Cx)\n    ensures #[trigger] wf_%s(x, c) == (\n        %s),\n{ %s }" % (n, n, n, body, rev(n, body))); names.append("d_" + n)
    else:
        arms = []
        for v, t in enums[n]:
            k = CTX.get(n + "." + v, "c")
            loc = LOCAL.get(n + "." + v)
            n_[0] = 0
            if t is None:
                b = loc or "true"; arms.append("%s::%s => %s," % (n, v, b))
                lem.append("pub broadcast proof fn d_%s_%s(c: Cx)\n    ensures #[trigger] wf_%s(%s::%s, c) == (%s),\n{ %s }" % (n, v, n, n, v, b, rev(n, b))); names.append("d_%s_%s" % (n, v))
            else:
                cs = ([loc] if loc else [])
                if isinstance(k, str) and k.startswith("="): cs.append(k[1:])
                else:
                    c = child("y", t, k)
                    if c: cs.append(c)
                b = " && ".join(cs) or "true"
                arms.append("%s::%s(y) => %s," % (n, v, b))
                lem.append("pub broadcast proof fn d_%s_%s(y: %s, c: Cx)\n    ensures #[trigger] wf_%s(%s::%s(y), c) == (%s),\n{ %s }" % (n, v, t, n, n, v, b, rev(n, b))); names.append("d_%s_%s" % (n, v))
        out.append("#[verifier::opaque]\npub open spec fn wf_%s(x: %s, c: Cx) -> bool\n    decreases x,\n{\n    match x {\n        %s\n    }\n}" % (n, n, "\n        ".join(arms)))
mod = {"ident": "w11", "early": "w12"}[MODE]
open(OUT, "w").write("""// written by tool/scripts/gentree.py %s
verus! {
pub mod %s {
use vstd::prelude::*;
use crate::vx::*;
use crate::fajt_ast::*;
use crate::fajt_lexer::token::*;
use crate::tables::*;

%s
%s

%s
pub open spec fn rest_PatternOrExpr(x: Option<Box<PatternOrExpr>>, c: Cx) -> bool { x matches Some(y) ==> wf_PatternOrExpr(*y, c) }
pub open spec fn rest_BindingPattern(x: Option<Box<BindingPattern>>, c: Cx) -> bool { x matches Some(y) ==> wf_BindingPattern(*y, c) }
pub open spec fn rest_param(x: Option<BindingPattern>, c: Cx) -> bool { x matches Some(y) ==> wf_BindingPattern(y, c) }
pub broadcast group group_tree { %s }
}
}
""" % (MODE, mod, PRE, "\n".join(out), "\n".join(lem), ", ".join(names + EXTRA)))
# templates: what every parser function returns satisfies the predicate under the parser's context
TAG = {"ident": "C11", "early": "C12"}[MODE]
LB = "" if MODE == "ident" else "12"
CX = "crate::%s::cx(old(self).context%s)" % (mod, "" if MODE == "ident" else ", old(self).source_type")
def P(t, e): return "crate::%s::wf_%s(%s, %s)" % (mod, t, e, CX)
def V(t, e): return "(forall|i: int| 0 <= i < %s@.len() ==> crate::%s::wf_%s(#[trigger] %s@[i], %s))" % (e, mod, t, e, CX)
L = ["# written by tool/scripts/gentree.py " + MODE]
def tpl(ret, pat, cond):
    L.append("== template crate=parser ; recv=mut ; type=Parser ; ret=Result<%s>\nens[%s .tree%s]: r matches Ok(%s) ==> %s" % (ret, TAG, LB, pat, cond))
TYPES = lambda s: [t for t in s.split() if t in tree]
for t in TYPES("Expr Stmt MethodDefinition Ident PropertyDefinition AssignmentPattern PatternOrExpr MemberProperty LitTemplate FormalParameters ForInit BindingPattern VariableDeclaration SwitchCase SingleNameBinding SingleNameAssignmentProp PropertyName ObjectBinding NamedImport NamedExport NamedBinding NamedAssignmentProp ForDeclaration ClassElement CatchClause Body BindingElement AssignmentElement ArrowFunctionBody ArrayElement ArrayBinding Argument"):
    tpl(t, "x", P(t, "x"))
for t in TYPES("Stmt ForInit BindingPattern"): tpl("Option<%s>" % t, "Some(x)", P(t, "x"))
for t in TYPES("Stmt VariableDeclaration SwitchCase NamedImport NamedExport ClassElement"): tpl("Vec<%s>" % t, "x", V(t, "x"))
tpl("(Span, Vec<Argument>)", "x", V("Argument", "x.1")); tpl("(Option<Span>, Vec<Argument>)", "x", V("Argument", "x.1"))
tpl("(bool, FormalParameters)", "x", P("FormalParameters", "x.1"))
if MODE == "ident": tpl("(Option<Box<Expr>>, Vec<ClassElement>)", "x", "(x.0 matches Some(y) ==> %s) && %s" % (P("Expr", "*y"), V("ClassElement", "x.1")))
if MODE == "ident": tpl("ImportClause", "x", "(x.default_binding matches Some(y) ==> %s) && (x.namespace_binding matches Some(y) ==> %s) && (x.named_imports matches Some(y) ==> %s)" % (P("Ident", "y"), P("Ident", "y"), V("NamedImport", "y")))
# an arrow function found where none may be: it was found at the start of the expression, or behind it
WEAK = "Stmt Option<Stmt> Vec<Stmt> CatchClause SwitchCase Vec<SwitchCase> ForInit Option<ForInit> ForDeclaration VariableDeclaration Vec<VariableDeclaration> Vec<LitString> Vec<NamedImport> Vec<NamedExport> ImportClause NamedImport NamedExport Program".split()
weak = " ; ret=" + "|".join("Result<%s>" % t for t in WEAK)
E = "r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= old(self).v().pos()"
L.append("== template crate=parser ; recv=mut ; type=Parser%s\nens[%s .tarrow%s]: %s)" % (weak, TAG, LB, E))
L.append("== template crate=parser ; recv=mut ; type=Parser ; ret=Result<* ; except=%s\nens[%s .tarrow%s]: %s && (e.span.start == old(self).v().pos() ==> %s))" % (weak[7:], TAG, LB, E, P("Expr", "x")))
L.append("== template crate=parser ; recv=mut ; type=Parser\nbegin[%s]: broadcast use crate::%s::group_tree;\nlbegin[%s] *: broadcast use crate::%s::group_tree;" % (TAG, mod, TAG, mod))
L.append("== template crate=parser ; recv=mut ; type=Parser ; except=%s\nbegin[%s .mp]: broadcast use crate::ps::lemma_moved_pos;\nlbegin[%s .mp] *: broadcast use crate::ps::lemma_moved_pos;" % (weak[7:], TAG, TAG))
L.append("== fn parser::Parser::parse_function_expr_content parser::Parser::parse_function_decl_content parser::Parser::parse_method\nuntag: .mp")
L.append("== template crate=parser ; recv=mut ; type=Parser ; mentions=Identifier|Literal|consume_literal|parse_literal|parse_template_literal_parts|parse_non_substitution_template\nbegin[%s .lt]: broadcast use crate::ps::lemma_lit_toks;\nlbegin[%s .lt] *: broadcast use crate::ps::lemma_lit_toks;" % (TAG, TAG))
F = "parser::Parser::"
def fn(names, *cl): L.append("== fn " + " ".join(F + n for n in names.split()) + "\n" + "\n".join(cl))
# children handed in
for n, p, t in [("parse_call_expr", "callee", "Expr"), ("parse_tagged_template", "callee", "Expr"), ("parse_member_expr_right_side", "left", "MemberObject"), ("parse_optional_expr", "left", "Expr"),
    ("parse_optional_call_expr", "callee", "Expr"), ("parse_optional_member_expr", "object", "Expr"), ("parse_assignment", "left", "PatternOrExpr"), ("parse_postfix_update_expr", "argument", "Expr"),
    ("parse_recursive_call_expression", "previous_expr", "Expr"), ("parse_expr_sequence", "initial_expr", "Expr"), ("parse_for_in parse_for_of", "left", "ForDeclaration"),
    ("parse_named_property_definition", "name", "PropertyName"), ("normalize_left_side_assignment", "pattern_or_expr", "Expr")]:
    fn(n, "req[%s]: %s" % (TAG, P(t, p)))
# lists built in loops
for n, v, t in [("parse_expr_sequence", "expr", "Expr"), ("parse_arguments", "arguments", "Argument"), ("parse_array_literal", "elements", "ArrayElement"), ("parse_object_literal", "props", "PropertyDefinition"),
    ("parse_object_assignment_pattern", "props", "AssignmentProp"), ("parse_object_binding_pattern", "props", "ObjectBindingProp"), ("parse_formal_parameters", "parameters", "BindingElement"),
    ("parse_function_body_stmt_list", "$out", "Stmt"), ("parse_class_body", "$out", "ClassElement"), ("parse_block_stmt", "statements", "Stmt"), ("parse_all_stmts", "$out", "Stmt"), ("parse_case_block", "$out", "SwitchCase"),
    ("parse_switch_case_stmt_list", "$out", "Stmt"), ("parse_named_imports", "$out", "NamedImport"), ("parse_named_exports", "$out", "NamedExport"), ("parse_variable_declarations", "$out", "VariableDeclaration")]:
    if t in tree and not (MODE == "early" and t == "ClassElement"): fn(n, "inv[%s]: %s" % (TAG, V(t, v)))
for n, t in [("parse_array_assignment_pattern", "AssignmentElement"), ("parse_array_binding_pattern", "BindingElement")]:
    fn(n, "inv[%s]: forall|i: int| 0 <= i < elements@.len() ==> (#[trigger] elements@[i] matches Some(x) ==> %s)" % (TAG, P(t, "x")))
for n, t in [("parse_array_assignment_pattern parse_object_assignment_pattern", "PatternOrExpr"), ("parse_array_binding_pattern parse_object_binding_pattern", "BindingPattern")]:
    fn(n, "inv[%s]: crate::%s::rest_%s(rest, %s)" % (TAG, mod, t, CX))
fn("parse_formal_parameters", "inv[%s]: crate::%s::rest_param(rest, %s)" % (TAG, mod, CX))
for n in ("parse_optional_expr", "parse_recursive_call_expression", "parse_new_or_member_expr", "parse_recursive_binary_expr"):
    fn(n, "inv[%s]: %s" % (TAG, P("Expr", "$out")))
q = "(forall|i: int| 0 <= i < %s@.len() ==> crate::" + mod + ".wf_TemplatePart(#[trigger] %s@[i], " + CX + "))"
q = q.replace(mod + ".wf", mod + "::wf")
fn("parse_template_literal_parts", "req[%s]: %s" % (TAG, q % ("old(parts)", "old(parts)")), "ens[%s]: r is Ok ==> %s" % (TAG, q % ("final(parts)", "final(parts)")), "inv[%s]: %s" % (TAG, q % ("parts", "parts")))
fn("parse_literal", "untag: .tree%s" % LB, "ens[%s]: r matches Ok(x) ==> (crate::ps::plain_tok(old(self).v().cur->Some_0.value) ==> %s)" % (TAG, P("Expr", "x")))
fn("consume_literal", "req[%s]: crate::ps::plain_lit(literal)" % TAG)
fn("parse_literal consume_literal", "begin[%s]: broadcast use crate::%s::lemma_plain_lit;" % (TAG, mod))
fn("parse_identifier_name", "untag: .tree%s" % LB)
# a function, a method: under its own parameters, whatever those around it are
for n, t in [("parse_class_decl", "Stmt"), ("parse_class_expr", "Expr")]:
    fn(n, "ens[%s]: r matches Ok(x) ==> (forall|c: crate::%s::Cx| crate::%s::strict(c) == %s ==> #[trigger] crate::%s::wf_%s(x, c))" % (TAG, mod, mod, CX, mod, t))
fn("parse_class_decl parse_class_expr", "ens[%s]: r matches Err(e) ==> (e.kind is ArrowFunctionNotAllowed ==> e.span.start > old(self).v().pos())" % TAG)
fn("parse_class_decl parse_class_expr parse_class_tail parse_class_body parse_class_element", "req[%s]: old(self).context.is_strict" % TAG)
fn("parse_class_body", "inv[%s]: old(self).context.is_strict" % TAG)
fn("parse_arrow_function", "ens[%s]: r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == span_start" % TAG)
fn("normalize_left_side_assignment", "ens[%s]: r matches Ok(x) ==> %s" % (TAG, P("PatternOrExpr", "x")),
  "ens[%s]: r matches Err(e) ==> (e.kind matches crate::fajt_parser::error::ErrorKind::ArrowFunctionNotAllowed(x) ==> e.span.start >= start_token.span.start && (e.span.start == start_token.span.start ==> %s))" % (TAG, P("Expr", "x")),
  "begin[%s]: broadcast use crate::%s::group_tree; broadcast use crate::ps::lemma_moved_pos;" % (TAG, mod))
fn("consume_assert consume maybe_consume", "ens[%s]: r matches Err(e) ==> !(e.kind is ArrowFunctionNotAllowed)" % TAG)
fn("parse_conditional_expr_or_arrow_function", "req[%s]: old(self).v().cur is Some" % TAG)
fn("parse_arrow_function_expr", "ens[%s]: old(self).v().cur is Some ==> (r matches Ok(x) ==> crate::sp::VxSp::sp(&x).start == old(self).v().pos())" % TAG)
L += FNS
open(OUT.replace(".rs", ".vx"), "w").write("\n".join(L) + "\n")
