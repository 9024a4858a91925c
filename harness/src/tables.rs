//! Exhaustive: every spelling of the fixed tables, read and printed back by the real code.
use crate::rng::Rng;
use crate::util::guard;
use crate::{Case, Failure, Mode};
use fajt_ast::*;
use fajt_lexer::token::{Keyword, Punctuator, TokenValue};
use fajt_lexer::Lexer;
use serde_json::json;
use std::str::FromStr;

pub const KEYWORDS: &[&str] = &[
    "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false",
    "finally", "for", "from", "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected",
    "public", "return", "set", "static", "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
];
pub const PUNCTS: &[&str] = &[
    "(", ")", "{", "}", "[", "]", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "/", "%", "**", "++", "--", "<<", ">>", ">>>", "&", "|", "^",
    "!", "~", "&&", "||", "??", "?", "?.", ":", "=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "=>", ".", "...",
];
const BINARY: &[&str] = &[
    "+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|",
];
const LOGICAL: &[&str] = &["&&", "||", "??"];
const UNARY: &[&str] = &["delete", "void", "typeof", "+", "-", "~", "!"];
const UPDATE: &[&str] = &["++", "--"];
const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];
const VARIABLE: &[&str] = &["const", "let", "var"];

pub struct Tables {
    cases: Vec<(&'static str, String)>,
}
impl Tables {
    pub fn new() -> Self {
        let mut cases = Vec::new();
        let lists: &[(&'static str, &[&str])] = &[
            ("keyword", KEYWORDS), ("punctuator", PUNCTS), ("binary", BINARY), ("logical", LOGICAL), ("unary", UNARY), ("update", UPDATE), ("assign", ASSIGN), ("variable", VARIABLE),
        ];
        let mut all: Vec<String> = lists.iter().flat_map(|l| l.1.iter().map(|s| s.to_string())).collect();
        for s in all.clone() {
            all.push(format!("{s}x"));
            all.push(s.to_uppercase());
            all.push(format!("{s} "));
            for i in 1..s.len() {
                all.push(s[..i].to_string());
                all.push(s[i..].to_string());
            }
        }
        all.extend(["&&=", "||=", "??=", "=<", "=>=", "meta", "constructor", "static_", "undefined", "arguments", "eval", "", "#", "@", "\\"].map(|s| s.to_string()));
        all.sort();
        all.dedup();
        for (k, _) in lists {
            for s in &all {
                cases.push((*k, s.clone()));
            }
        }
        for s in &all {
            cases.push(("source", s.clone()));
        }
        Tables { cases }
    }
}
fn table(k: &str) -> &'static [&'static str] {
    match k {
        "keyword" => KEYWORDS,
        "punctuator" => PUNCTS,
        "binary" => BINARY,
        "logical" => LOGICAL,
        "unary" => UNARY,
        "update" => UPDATE,
        "assign" => ASSIGN,
        _ => VARIABLE,
    }
}
fn check(kind: &str, s: &str) -> Option<String> {
    if kind == "source" {
        return source(s);
    }
    let expect = table(kind).contains(&s);
    let got: Option<String> = match kind {
        "keyword" => Keyword::from_str(s).ok().map(|k| k.to_string()),
        "punctuator" => Punctuator::from_str(s).ok().map(|k| k.to_string()),
        "binary" => BinaryOperator::from_str(s).ok().map(|k| k.to_string()),
        "logical" => LogicalOperator::from_str(s).ok().map(|k| k.to_string()),
        "unary" => UnaryOperator::from_str(s).ok().map(|k| k.to_string()),
        "update" => UpdateOperator::from_str(s).ok().map(|k| k.to_string()),
        "assign" => AssignmentOperator::from_str(s).ok().map(|k| k.to_string()),
        _ => VariableKind::from_str(s).ok().map(|k| k.to_string()),
    };
    match (expect, got) {
        (true, Some(g)) if g == s => None,
        (false, None) => None,
        (e, g) => Some(format!("{kind} spelling {s:?}: expected {}, reading and printing it back gave {g:?}", if e { "the same spelling" } else { "no reading" })),
    }
}
/// the operator in a parsed expression is the one in the source
fn source(s: &str) -> Option<String> {
    if KEYWORDS.contains(&s) {
        let t = Lexer::new(s).ok()?.read().ok();
        match t.map(|t| t.value) {
            Some(TokenValue::Keyword(k)) if k.to_string() == s => {}
            o => return Some(format!("source {s:?} lexes as {o:?}")),
        }
    }
    if PUNCTS.contains(&s) {
        let t = Lexer::new(s).ok()?.read().ok();
        match t.map(|t| t.value) {
            Some(TokenValue::Punctuator(k)) if k.to_string() == s => {}
            o => return Some(format!("source {s:?} lexes as {o:?}")),
        }
    }
    let parse = |t: String| -> Option<Expr> {
        let p = fajt_parser::parse_script(&t).ok()?;
        match crate::util::stmts(p).into_iter().next()? {
            Stmt::Expr(e) => Some(*e.expr),
            _ => None,
        }
    };
    let mut bad = Vec::new();
    if BINARY.contains(&s) {
        match parse(format!("a {s} b")) {
            Some(Expr::Binary(e)) if e.operator.to_string() == s => {}
            o => bad.push(format!("a {s} b -> {o:?}")),
        }
    }
    if LOGICAL.contains(&s) {
        match parse(format!("a {s} b")) {
            Some(Expr::Logical(e)) if e.operator.to_string() == s => {}
            o => bad.push(format!("a {s} b -> {o:?}")),
        }
    }
    if ASSIGN.contains(&s) {
        match parse(format!("a {s} b")) {
            Some(Expr::Assignment(e)) if e.operator.to_string() == s => {}
            o => bad.push(format!("a {s} b -> {o:?}")),
        }
    }
    if UNARY.contains(&s) {
        match parse(format!("{s} b")) {
            Some(Expr::Unary(e)) if e.operator.to_string() == s => {}
            o => bad.push(format!("{s} b -> {o:?}")),
        }
    }
    if UPDATE.contains(&s) {
        match parse(format!("{s} b")) {
            Some(Expr::Update(e)) if e.operator.to_string() == s && e.prefix => {}
            o => bad.push(format!("{s} b -> {o:?}")),
        }
        match parse(format!("b {s}")) {
            Some(Expr::Update(e)) if e.operator.to_string() == s && !e.prefix => {}
            o => bad.push(format!("b {s} -> {o:?}")),
        }
    }
    if VARIABLE.contains(&s) {
        let p = fajt_parser::parse_script(&format!("{s} a = 1"));
        match p.map(crate::util::stmts) {
            Ok(v) if matches!(v.first(), Some(Stmt::Variable(x)) if x.kind.to_string() == s) => {}
            o => bad.push(format!("{s} a = 1 -> {o:?}")),
        }
    }
    if bad.is_empty() {
        None
    } else {
        Some(bad.join("; "))
    }
}
impl Mode for Tables {
    fn rule(&self) -> &'static str {
        "every spelling of the keyword, punctuator and operator tables and every prefix/suffix/case variant of one, against every table (finite, enumerated completely); all count"
    }
    fn case(&mut self, n: u64, _: &mut Rng) -> Option<Case> {
        let (k, s) = self.cases.get(n as usize)?.clone();
        let r = guard(|| check(k, &s)).unwrap_or_else(Some);
        Some(Case {
            key: format!("{k} {s:?}"),
            nontrivial: true,
            fail: r.map(|w| Failure { input: json!({"table": k, "spelling": s}), what: w, signature: format!("tables {k} {s}") }),
        })
    }
    fn replay(&mut self, i: &serde_json::Value) -> Option<Failure> {
        let (k, s) = (i["table"].as_str()?.to_string(), i["spelling"].as_str()?.to_string());
        guard(|| check(&k, &s)).unwrap_or_else(Some).map(|w| Failure { input: i.clone(), what: w, signature: String::new() })
    }
}
