//! Modes over the context-dependent rules: which words may be identifiers (C11), early errors (C12), automatic
//! semicolon insertion (C13).  A probe statement is put into randomly nested functions, classes, objects and
//! statements; the context flags are computed from the nesting alone (ECMAScript), and decide what the probe must do.
use crate::progmode::{diff, parse, strip};
use crate::rng::Rng;
use crate::{Case, Failure, Mode};
use serde_json::{json, Value as J};

#[derive(Clone, Copy, Debug)]
pub struct Cx {
    pub y: bool,
    pub a: bool,
    pub strict: bool,
    pub ret: bool,
    pub meth: bool,
    pub sup: bool,
}

const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in",
    "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with",
];
const STRICT: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static"];
const FREE: &[&str] = &["as", "async", "from", "get", "of", "set", "target", "foo", "$x", "meta", "constructor", "undefined"];

fn reserved(w: &str, y: bool, a: bool, strict: bool) -> bool {
    RESERVED.contains(&w) || (STRICT.contains(&w) && strict) || (w == "await" && a) || (w == "yield" && (y || strict))
}
fn word(r: &mut Rng) -> &'static str {
    match r.below(8) {
        0 | 1 => r.pick(RESERVED),
        2 | 3 => r.pick(STRICT),
        4 | 5 => *r.pick(&["await", "yield"]),
        _ => r.pick(FREE),
    }
}

const NOISE: &[&str] = &[
    "v = function* () { yield 1; };",
    "async function n1() { await v; }",
    "class N2 extends B { constructor() { super(); } m() { return super.m; } }",
    "function n3() { 'use strict'; return 1 }",
    "v = async () => { await v };",
    "v = { m() { return super.m() }, *g() { yield } };",
    "v = (class { static async *m() { yield await v } });",
    "v = x => { return x };",
    "for (var k in v) ;",
    "if (v) v; else v;",
    "v = `a${v}b`;",
    "v = [1, , 2];",
];

/// wraps a probe: (before, after, context of the probe)
fn nest(r: &mut Rng, depth: usize) -> (String, String, Cx) {
    let mut cx = Cx { y: false, a: false, strict: false, ret: false, meth: false, sup: false };
    let (mut pre, mut post) = (String::new(), String::new());
    if r.one_in(4) {
        pre.push_str(*r.pick(&["'use strict';\n", "\"use strict\";\n", "'a'; 'use strict';"]));
        cx.strict = true;
    } else if r.one_in(6) {
        pre.push_str(*r.pick(&["'use strict' + 1;", "('use strict');", "'use  strict';", "v; 'use strict';"]));
    }
    for _ in 0..depth {
        if r.one_in(3) {
            pre.push_str(r.pick(NOISE));
        }
        let s = if r.one_in(2) { "\n" } else { " " };
        let mut body = false;
        let (p, q): (String, String) = match r.below(if cx.strict { 23 } else { 24 }) {
            0 => { cx = Cx { y: false, a: false, ret: true, meth: false, sup: false, ..cx }; body = true; (format!("function f{}() {{", r.below(3)), "}".into()) }
            1 => { cx = Cx { y: true, a: false, ret: true, meth: false, sup: false, ..cx }; body = true; ("function* g(p, q) {".into(), "}".into()) }
            2 => { cx = Cx { y: false, a: true, ret: true, meth: false, sup: false, ..cx }; body = true; ("async function h(p) {".into(), "}".into()) }
            3 => { cx = Cx { y: true, a: true, ret: true, meth: false, sup: false, ..cx }; body = true; ("async function* i() {".into(), "}".into()) }
            4 => { cx = Cx { y: false, a: false, ret: true, meth: false, sup: false, ..cx }; body = true; (r.pick(&["v = function () {", "(function k() {", "v = 1 + function () {"]).to_string(), "};".into()) }
            5 => { cx = Cx { y: true, a: false, ret: true, meth: false, sup: false, ..cx }; body = true; (r.pick(&["v = function* () {", "v = [function* k() {"]).to_string(), "};".into()) }
            6 => { let y = r.one_in(2); cx = Cx { y, a: true, ret: true, meth: false, sup: false, ..cx }; body = true; (format!("v = async function{} () {{", if y { "*" } else { "" }), "};".into()) }
            7 | 8 => { cx = Cx { y: false, a: false, ret: true, ..cx }; body = true; (r.pick(&["v = () => {", "v = (p, q) => {", "v = p => {", "(() => {", "v = u = (p) => {"]).to_string(), "};".into()) }
            9 | 10 => { cx = Cx { y: false, a: true, ret: true, ..cx }; body = true; (r.pick(&["v = async () => {", "v = async (p, q) => {", "v = async p => {", "(async () => {"]).to_string(), "};".into()) }
            11..=15 => {
                // a method of a class or of an object
                let class = r.one_in(2);
                let ext = class && r.one_in(2);
                let stat = class && r.one_in(3);
                if class {
                    cx.strict = true;
                }
                let mut kind = r.below(7);
                if (cx.y || cx.a) && kind < 4 {
                    kind = 4 + r.below(3); // a plain method keeps the flags of the enclosing function (pinned by a test)
                }
                let name = *r.pick(&["m", "'m'", "1", "[v]", "if", "get", "static_", "async_"]);
                let (head, y, a, sup) = match kind {
                    0 | 1 if class && !stat => (format!("{}() {{", r.pick(&["constructor", "'constructor'"])), false, false, ext),
                    0 | 1 => (format!("{name}(p) {{"), false, false, false),
                    2 => (format!("get {name}() {{"), false, false, false),
                    3 => (format!("set {name}(p) {{"), false, false, false),
                    4 => (format!("*{name}() {{"), true, false, false),
                    5 => (format!("async {name}() {{"), false, true, false),
                    _ => (format!("async *{name}() {{"), true, true, false),
                };
                // fajt reads a computed name in an object as the one of a plain method
                cx = Cx { y, a, ret: true, meth: true, sup, ..cx };
                body = true;
                let st = if stat { "static " } else { "" };
                if class {
                    let h = if ext { " extends B" } else { "" };
                    let before = *r.pick(&["", "o() {}", ";", "static p() {};"]);
                    match r.below(3) {
                        0 => (format!("class K{h} {{ {before} {st}{head}"), format!("}} {} }}", r.pick(&["", "r() {}", ";"]))),
                        1 => (format!("v = class{h} {{ {before} {st}{head}"), "} };".into()),
                        _ => (format!("(class K{h} {{ {before} {st}{head}"), "} });".into()),
                    }
                } else {
                    let before = *r.pick(&["", "a: 1, ", "o() {}, ", "b, "]);
                    (format!("v = {{ {before}{head}"), format!("}} {} }};", r.pick(&["", ", r() {}", ", c", ","])))
                }
            }
            16 => ("{".into(), "}".into()),
            17 => (r.pick(&["if (v) {", "if (v) {} else {", "if (v) ; else if (u) {"]).to_string(), "}".into()),
            18 => (r.pick(&["for (;;) {", "for (v of u) {", "for (var w in v) {", "for (let w = 1; w < 2; w++) {", "for (const w of v) {"]).to_string(), "}".into()),
            19 => ("while (v) {".into(), "}".into()),
            20 => ("do {".into(), "} while (v);".into()),
            21 => match r.below(4) {
                0 => ("try {".into(), "} finally {}".into()),
                1 => ("try {} catch (e) {".into(), "}".into()),
                2 => ("try {} catch {".into(), "}".into()),
                _ => ("try {} finally {".into(), "}".into()),
            },
            22 => (r.pick(&["switch (v) { case 1:", "switch (v) { default:", "switch (v) { case 1: ; case 2: ; default:", "l: switch (v) { case 1: {} case 2:"]).to_string(), "}".into()),
            _ => (r.pick(&["with (v) {", "l: {", "l: m: {"]).to_string(), "}".into()),
        };
        // an opened parenthesis or bracket is closed again
        let q = if p.starts_with('(') && !q.contains("})") { format!("}}){}", &q[1..]) } else { q };
        let q = if p.starts_with("v = [") { "}];".to_string() } else { q };
        pre.push_str(&p);
        pre.push_str(s);
        post = format!("{s}{q}{s}{}{post}", if r.one_in(4) { *r.pick(NOISE) } else { "" });
        if body {
            let simple = !p.contains("...");
            if simple && r.one_in(5) {
                pre.push_str(*r.pick(&["'use strict';", "\"use strict\";\n", "'b'; 'use strict';"]));
                cx.strict = true;
            } else if r.one_in(8) {
                pre.push_str(*r.pick(&["'use strict' + 1;", "'use strict', v;", "'use strict'.length;"]));
            }
        }
    }
    if r.one_in(3) {
        pre.push_str(r.pick(NOISE));
    }
    (pre, post, cx)
}

/// One position of the word `@` in a statement.  `f`: flags: r = reference position (literals are fine there)
struct Pos(&'static str, &'static str);
const POS: &[Pos] = &[
    // binding
    Pos("var @;", "b"), Pos("var @ = 1;", "b"), Pos("var u, @;", "b"), Pos("let @;", "bl"), Pos("const @ = 1;", "bl"), Pos("let u = 1, @ = 2;", "bl"),
    Pos("var [@] = v;", "b"), Pos("var [...@] = v;", "b"), Pos("var [u, @ = 1] = v;", "b"), Pos("var {a: @} = v;", "b"), Pos("var {@} = v;", "b"), Pos("var {@ = 1} = v;", "b"), Pos("var {...@} = v;", "b"), Pos("var {a: [@]} = v;", "b"),
    Pos("try {} catch (@) {}", "b"), Pos("try {} catch ({@}) {}", "b"), Pos("for (var @ in v);", "b"), Pos("for (const @ of v);", "bl"), Pos("for (let @ = 1;;);", "bl"), Pos("for (var @ = 1, u;;);", "b"),
    Pos("function @() {}", "b"), Pos("async function @() {}", "b"), Pos("function* @() {}", "b"), Pos("async function* @() {}", "b"), Pos("class @ {}", "bS"), Pos("class @ extends B {}", "bS"), Pos("(class @ {});", "bS"), Pos("v = class @ extends B { m() {} };", "bS"),
    Pos("(function @() {});", "b0"), Pos("(function* @() {});", "bY"), Pos("(async function @() {});", "bA"), Pos("(async function* @() {});", "bYA"),
    Pos("function f(@) {}", "b0"), Pos("function f(u, {@}) {}", "b0"), Pos("function f(...@) {}", "b0"), Pos("function* f(@) {}", "bY"), Pos("async function f(@ = 1) {}", "bA"), Pos("v = async function* ([@]) {};", "bYA"), Pos("v = function (@) {};", "b0"),
    Pos("(@ => {});", "b"), Pos("v = @ => 1;", "b"), Pos("v = (@) => {};", "b"), Pos("v = (u, @) => {};", "b"), Pos("v = ({@}) => {};", "b"), Pos("v = ([@]) => 1;", "b"), Pos("v = (...@) => 1;", "b"), Pos("v = (@ = 1) => 1;", "b"),
    Pos("v = async @ => {};", "bw"), Pos("v = async (@) => {};", "bw"), Pos("v = async (u, {@}) => {};", "bw"),
    Pos("v = { m(@) {} };", "b0p"), Pos("v = { set m(@) {} };", "b0p"), Pos("class K { m(@) {} }", "b0pS"), Pos("v = { async m(@) {} };", "bAyp"), Pos("v = { *m(@) {} };", "b0yp"),
    // bodies of nested functions
    Pos("function f() { var @; }", "b0"), Pos("function* f() { var @; }", "bY"), Pos("async function f() { var @; }", "bA"), Pos("v = () => { var @; };", "b0"), Pos("v = async () => { var @; };", "bA"), Pos("v = { *m() { var @; } };", "bY"), Pos("v = { async m() { var @; } };", "bA"), Pos("class K { *m() { var @; } }", "bYS"), Pos("class K { static async *m() { var @; } }", "bYAS"), Pos("function f() { 'use strict'; var @; }", "b0S"), Pos("v = () => { 'use strict'; var @ };", "b0S"), Pos("v = { m() { var @; } };", "b0p"),
    Pos("function* f() { function g() { var @; } }", "b0"), Pos("async function f() { v = () => { var @; }; }", "b0"), Pos("function* f() { v = () => { var @ }; }", "b0"), Pos("async function f() { v = function* () { var @; }; }", "bY"),
    // reference
    Pos("v = @;", "r"), Pos("@;", "re"), Pos("v = @ + 1;", "ro"), Pos("v = [@];", "r"), Pos("v = (@);", "r"), Pos("f(@);", "r"), Pos("f(...@);", "r"), Pos("v = @ ? 1 : 2;", "r"), Pos("v = 1 ? @ : 2;", "r"), Pos("v = v[@];", "r"), Pos("v = `a${@}b`;", "r"), Pos("if (@) ;", "r"), Pos("while (@) break;", "r"), Pos("switch (@) {}", "r"), Pos("throw @;", "r"), Pos("v = !@;", "ru"), Pos("v = typeof @;", "ru"), Pos("v = {a: @};", "r"), Pos("v = {[@]: 1};", "r"), Pos("class K extends @ {}", "rSu"), Pos("for (;;@) break;", "r"), Pos("for (u in @) ;", "r"), Pos("v = () => @;", "r0"), Pos("v = async () => @;", "rA"), Pos("v = (u = @) => 1;", "r"), Pos("var {a = @} = v;", "r"), Pos("new @;", "ru"), Pos("v = @ instanceof u;", "r"), Pos("v = @ in u;", "r"),
    // shorthand, target
    Pos("v = {@};", "b"), Pos("v = {@, a: 1};", "b"), Pos("v = {a, @};", "b"), Pos("@ = 1;", "b"), Pos("v = @ = 1;", "b"), Pos("@ += 1;", "b"), Pos("@++;", "b"), Pos("--@;", "b"), Pos("[@] = v;", "b"), Pos("[u, ...@] = v;", "b"), Pos("({@} = v);", "b"), Pos("({a: @} = v);", "b"), Pos("({@ = 1} = v);", "b"), Pos("({...@} = v);", "b"), Pos("[@ = 1] = v;", "b"), Pos("for (@ in v);", "bf"), Pos("for (@ of v);", "bf"), Pos("for ([@] of v);", "b"), Pos("for ({@} of v);", "b"),
    Pos("@.a;", "c"), Pos("@();", "cx"), Pos("@`a`;", "co"), Pos("v = @.a;", "c"), Pos("v = @?.a;", "c"), Pos("v = @[0];", "co"),
    // labels
    Pos("@: ;", "b:"), Pos("@: for (;;) { break @; }", "b:"), Pos("@: while (v) { continue @; }", "b:"), Pos("u: @: ;", "b:"),
    // names: anything goes
    Pos("v = v.@;", "n"), Pos("v.@ = 1;", "n"), Pos("v = v?.@;", "n"), Pos("v = v?.a.@;", "n"), Pos("v = {@: 1};", "n"), Pos("v = {a: 1, @: 2};", "n"), Pos("v = {@() {}};", "n"), Pos("v = {get @() {}};", "n"), Pos("v = {set @(u) {}};", "n"), Pos("v = {*@() {}};", "n"), Pos("v = {async @() {}};", "n"), Pos("v = {async *@() {}};", "n"),
    Pos("class K { @() {} }", "n"), Pos("class K { static @() {} }", "n"), Pos("class K { get @() {} }", "n"), Pos("class K { static set @(u) {} }", "n"), Pos("class K { *@() {} }", "n"), Pos("class K { async @() {} }", "n"), Pos("({@: v} = u);", "n"), Pos("var {@: u} = v;", "n"), Pos("({@: u = 1} = v);", "n"), Pos("function f({@: u}) {}", "n"), Pos("v = ({@: u}) => 1;", "n"), Pos("v().@();", "n"), Pos("new v.@;", "n"),
];
const MPOS: &[Pos] = &[
    Pos("import @ from 'm';", "b"), Pos("import * as @ from 'm';", "b"), Pos("import {@} from 'm';", "b"), Pos("import {a as @} from 'm';", "b"), Pos("import u, {@} from 'm';", "b"), Pos("import {@ as a} from 'm';", "n"), Pos("export {a as @};", "n"), Pos("export {@} from 'm';", "n"), Pos("export * as @ from 'm';", "n"), Pos("export {@ as a} from 'm';", "n"),
    Pos("export var @;", "b"), Pos("export function @() {}", "b"), Pos("export class @ {}", "b"), Pos("export const [@] = v;", "b"), Pos("export default function @() {}", "b"),
];

/// Some(true): must be accepted, Some(false): must be rejected, None: not decided here
fn ident_verdict(p: &Pos, w: &str, cx: Cx) -> Option<bool> {
    let f = p.1;
    let has = |c: char| f.contains(c);
    if has('n') {
        return Some(true);
    }
    let (mut y, mut a, mut strict) = (cx.y, cx.a, cx.strict);
    if has('0') || has('Y') || has('A') {
        y = has('Y');
        a = has('A');
    }
    if has('S') {
        strict = true;
    }
    if has('p') && (cx.y || cx.a) {
        return None; // flags of the enclosing function are kept (pinned)
    }
    if has('y') && w == "yield" || has('w') && w == "await" || has('l') && w == "let" || has('e') && w == "let" {
        return None;
    }
    // words that begin something else that may stand there
    if has('r') || has('c') {
        if matches!(w, "this" | "null" | "true" | "false" | "super" | "import") {
            return None;
        }
        // new.target and the like are no identifiers; they are not written here
        if w == "yield" && y && !has('c') {
            return if has('u') { Some(false) } else { None };
        }
    }
    if has('c') && w == "async" && has('x') {
        return Some(true);
    }
    // operators and statements that take what follows as their operand
    if has('o') && (matches!(w, "typeof" | "void" | "delete" | "new" | "return" | "throw") || w == "await" && a || w == "yield" && y) {
        return None;
    }
    if has('e') && matches!(w, "break" | "continue" | "return" | "debugger") {
        return None;
    }
    if has('f') && matches!(w, "let" | "async") {
        return None;
    }
    if has(':') && w == "default" {
        return None;
    }
    // `let` before `[`, and names of unnamed functions and classes
    if p.0.starts_with("v = @[") && w == "let" {
        return None;
    }
    if p.0.contains("default") && matches!(w, "let") {
        return None;
    }
    Some(!reserved(w, y, a, strict))
}

/// what the parser does with the text: accepted or not (a panic is neither)
fn accepts(src: &str, module: bool) -> Result<bool, String> {
    parse(src, module).map(|r| r.is_ok())
}
fn expect(src: &str, module: bool, ok: bool, why: &str) -> Option<Failure> {
    let what = match accepts(src, module) {
        Err(p) => p,
        Ok(g) if g == ok => return None,
        Ok(true) => format!("accepted, but {why}"),
        Ok(false) => format!("rejected, but {why}: {}", parse(src, module).unwrap().err().unwrap()),
    };
    Some(Failure { input: json!({"source": src, "module": module, "accept": ok, "why": why}), what, signature: String::new() })
}
fn replay_expect(i: &J) -> Option<Failure> {
    expect(i["source"].as_str().unwrap(), i["module"] == json!(true), i["accept"] == json!(true), i["why"].as_str().unwrap_or(""))
}

pub struct Ident;
impl Mode for Ident {
    fn rule(&self) -> &'static str {
        "a word (reserved, contextual or plain) in one of 160 positions of a statement inside random nesting of functions, classes, objects and statements; accepted exactly when ECMAScript allows the word there"
    }
    fn case(&mut self, n: u64, r: &mut Rng) -> Option<Case> {
        let w = word(r);
        if r.one_in(12) {
            let p = r.pick(MPOS);
            let pre = if r.one_in(2) { *r.pick(&["", "v = 1;", "import 'n';", "function* f() { yield }"]) } else { "" };
            let cx = Cx { y: false, a: false, strict: true, ret: false, meth: false, sup: false };
            let mut v = ident_verdict(p, w, cx);
            if w == "await" && !p.1.contains('n') {
                v = None; // fajt has no await at the top level
            }
            let src = format!("{pre}{};", p.0.replace('@', w));
            let fail = v.and_then(|ok| expect(&src, true, ok, &format!("`{w}` is {} in `{}`", if ok { "allowed" } else { "reserved" }, p.0)));
            return Some(Case { key: src, nontrivial: v.is_some(), fail });
        }
        let (pre, post, cx) = nest(r, (n % 5) as usize);
        let p = r.pick(POS);
        let v = ident_verdict(p, w, cx);
        let src = format!("{pre}{}{post}", p.0.replace('@', w));
        let fail = v.and_then(|ok| expect(&src, false, ok, &format!("`{w}` is {} in `{}`, where {cx:?}", if ok { "allowed" } else { "reserved" }, p.0)));
        Some(Case { key: src, nontrivial: v.is_some(), fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        replay_expect(i)
    }
}

// ---- early errors ----------------------------------------------------------------------------------------------

/// targets: (text, simple, only a reference to eval or arguments)
fn target(r: &mut Rng) -> (String, bool, bool) {
    let t: (&str, bool, bool) = *r.pick(&[
        ("u", true, false), ("u.a", true, false), ("u[0]", true, false), ("u().a", true, false), ("new u().a", true, false), ("(u)", true, false), ("((u.a))", true, false), ("u`a`.b", true, false), ("[u][0]", true, false), ("this.a", true, false), ("'a'.b", true, false), ("u[v = 1]", true, false),
        ("eval", true, true), ("arguments", true, true), ("(eval)", true, true), ("((arguments))", true, true), ("eval.a", true, false), ("arguments[0]", true, false), ("u.eval", true, false), ("u.arguments", true, false), ("eval().a", true, false),
        ("u()", false, false), ("u.a()", false, false), ("1", false, false), ("'a'", false, false), ("this", false, false), ("(u, v)", false, false), ("(1)", false, false), ("new u", false, false), ("new u()", false, false), ("u?.a", false, false), ("u?.a.b", false, false), ("u?.[0]", false, false), ("`a`", false, false), ("u`a`", false, false), ("(u + v)", false, false), ("(u = v)", false, false), ("(() => 1)", false, false), ("function () {}", false, false), ("class {}", false, false), ("/a/", false, false), ("null", false, false), ("true", false, false), ("(u.a())", false, false), ("(u++)", false, false), ("(-u)", false, false), ("(u ? v : w)", false, false), ("((u()))", false, false), ("new.target", false, false),
    ]);
    (t.0.to_string(), t.1, t.2)
}
const TARGET_USE: &[&str] = &[
    "v = @ = 1;", "v = @ += 1;", "v = @ **= 1;", "v = @ >>>= 1;", "v = @++;", "v = @--;", "v = ++@;", "v = --@;", "v = [w, @ = 1] = u;", "[@] = u;", "[w, @] = u;", "[...@] = u;", "[w, ...@] = u;", "[@ = 1] = u;", "({a: @} = u);", "({a: @ = 1} = u);", "({...@} = u);", "({a: [@]} = u);", "for ((@) in w);", "for ([@] of w);", "for ({a: @} in w);", "v = w || (@ = 1);", "f(@ = 1);", "v = w ? @ = 1 : 2;", "v = - ++@;", "v = -@++;", "v = () => @ = 1;", "v = `${@ = 1}`;", "v = [@ &= 1];", "v = {a: @ ^= 1};", "if (@ = 1) ;", "v = w = @ = 1;", "for (;; @++) break;", "throw @ = 1;",
];

/// (statement, needs) with needs: when it is valid
const EARLY: &[(&str, &str)] = &[
    // return
    ("return;", "ret"), ("return v;", "ret"), ("if (v) return;", "ret"), ("{ return }", "ret"), ("for (;;) return 1;", "ret"), ("switch (v) { case 1: return; }", "ret"), ("l: return;", "ret"), ("do return; while (v);", "ret"), ("try { return } finally {}", "ret"), ("v = () => { return; };", "yes"), ("v = () => { { return 1 } };", "yes"), ("v = () => return;", "no"), ("class K { m() { return; } }", "yes"), ("class K { [return] () {} }", "no"),
    // super
    ("super();", "sup"), ("v = super(1, ...v);", "sup"), ("v = super().a;", "sup"), ("v = () => super();", "sup"), ("v = () => { super(); };", "sup"), ("{ super(); }", "sup"), ("if (v) super(); else v;", "sup"), ("v = [super()];", "sup"), ("(super());", "sup"), ("v = async () => { super(); };", "sup"), ("f(super());", "sup"), ("v = {a: super()};", "sup"), ("v = (u = super()) => u;", "sup"),
    ("function f() { super(); }", "no"), ("v = function () { super(); };", "no"), ("v = {m() { super(); }};", "no"), ("v = {constructor() { super(); }};", "no"), ("class K { constructor() { super(); } }", "no"), ("class K extends B { m() { super(); } }", "no"), ("class K extends B { static constructor_() { super(); } }", "no"), ("class K extends B { constructor() { super(); } }", "yes"), ("class K extends B { 'constructor'() { super(); } }", "yes"), ("class K extends B { constructor() { v = () => { super(); }; } }", "yes"), ("class K extends B { constructor() { function f() { super(); } } }", "no"), ("class K extends B { constructor() { v = {m() { super(); }}; } }", "no"), ("class K extends B { constructor() { class L { m() { super(); } } } }", "no"), ("class K extends B { constructor() { v = function () { super(); }; } }", "no"), ("class K extends B { constructor() { async function f() { super(); } } }", "no"), ("class K extends B { constructor(u = super()) {} }", "yes"), ("class K extends B { m() {} constructor() { super(); } }", "yes"), ("class K extends B { constructor() { super(); } m() { super(); } }", "no"), ("class K extends B { static constructor() { super(); } }", "no"), ("class K extends B { constructor() { v = {get m() { super(); }}; } }", "no"), ("class K extends B { constructor() { v = {async [v]() { super(); }}; } }", "no"), ("class K extends B { constructor() { v = {[v]() { super(); }}; } }", "no"),
    ("super.a;", "meth"), ("v = super.a;", "meth"), ("v = super['a'];", "meth"), ("super.a();", "meth"), ("super.a = 1;", "meth"), ("super[v]++;", "meth"), ("v = () => super.a;", "meth"), ("v = () => { super.a; };", "meth"), ("v = async () => { super.a; };", "meth"), ("v = new super.a;", "meth"), ("v = super.a`b`;", "meth"), ("[super.a] = v;", "meth"), ("v = delete super.a;", "meth"), ("v = super.if;", "meth"),
    ("function f() { super.a; }", "no"), ("v = function () { super.a; };", "no"), ("function* f() { super.a; }", "no"), ("async function f() { super.a; }", "no"), ("v = async function () { super.a; };", "no"), ("v = {a: function () { super.a; }};", "no"), ("v = {m() { super.a; }};", "yes"), ("v = {get m() { return super.a; }};", "yes"), ("v = {[v]() { super.a; }};", "yes"), ("v = {m() { function f() { super.a; } }};", "no"), ("class K { m() { super.a; } }", "yes"), ("class K { static m() { super.a; } }", "yes"), ("class K { m(u = super.a) {} }", "yes"), ("class K { m() { v = () => super.a; } }", "yes"), ("class K { m() { v = function () { super.a; }; } }", "no"), ("v = {m() { v = async function* () { super.a; }; }};", "no"),
    ("super;", "no"), ("v = super;", "no"), ("super + 1;", "no"), ("super?.a;", "no"), ("super`a`;", "no"), ("new super;", "no"), ("new super();", "no"), ("(super);", "no"), ("(super).a;", "no"), ("super = 1;", "no"), ("super++;", "no"),
    // meta properties
    ("new.target;", "yes"), ("v = new.target.a;", "yes"), ("new.foo;", "no"), ("new.Target;", "no"), ("new.targe;", "no"), ("new.new;", "no"), ("new.target = 1;", "no"), ("new.target++;", "no"), ("v = new new.target;", "yes"), ("v = new new.target();", "yes"), ("new.;", "no"), ("new.'target';", "no"), ("v = import.met;", "no"), ("v = import.metas;", "no"), ("v = import.target;", "no"), ("v = new.meta;", "no"), ("import.meta = 1;", "no"), ("v = import.meta;", "yes"), ("v = import.meta.a;", "yes"),
    // parameters of methods
    ("v = {m(a, a) {}};", "no"), ("v = {m(a, b, a) {}};", "no"), ("v = {m(b, a, c, a) {}};", "no"), ("v = {m(a, ...a) {}};", "no"), ("v = {m(c, b, a) {}};", "yes"), ("v = {m(a, ab, b) {}};", "yes"), ("v = {m(aa, a) {}};", "yes"), ("v = {async m(a, a) {}};", "no"), ("v = {*m(a, a) {}};", "no"), ("v = {async *m(a, b, a) {}};", "no"), ("v = {m(a = 1, a) {}};", "no"), ("v = {[v](a, a) {}};", "no"), ("class K { m(a, a) {} }", "no"), ("class K { static m(a, a) {} }", "no"), ("class K { constructor(a, a) {} }", "no"), ("class K { async m(a, a) {} }", "no"), ("class K { m(a, b) {} }", "yes"), ("class K { *m(z, y, x, z) {} }", "no"), ("class K { m(a, A) {} }", "yes"),
    ("v = {get m() {}};", "yes"), ("v = {get m(a) {}};", "no"), ("v = {get m(...a) {}};", "no"), ("v = {get m({a}) {}};", "no"), ("v = {get m(a, b) {}};", "no"), ("class K { get m() {} }", "yes"), ("class K { get m(a) {} }", "no"), ("class K { static get m(...a) {} }", "no"),
    ("v = {set m(a) {}};", "yes"), ("v = {set m({a}) {}};", "yes"), ("v = {set m(a = 1) {}};", "yes"), ("v = {set m() {}};", "no"), ("v = {set m(a, b) {}};", "no"), ("v = {set m(...a) {}};", "no"), ("v = {set m(a, ...b) {}};", "no"), ("class K { set m(a) {} }", "yes"), ("class K { set m() {} }", "no"), ("class K { static set m(a, b) {} }", "no"), ("class K { set m(...a) {} }", "no"),
    ("v = {m(a) { 'use strict'; }};", "yes"), ("v = {m() { 'use strict'; }};", "yes"), ("v = {m(a = 1) { 'use strict'; }};", "no"), ("v = {m({a}) { 'use strict'; }};", "no"), ("v = {m([a]) { 'use strict'; }};", "no"), ("v = {m(...a) { 'use strict'; }};", "no"), ("v = {m(a, b = 1) { 'x'; 'use strict'; }};", "no"), ("v = {m(a = 1) { 'use strict' + 1; }};", "yes"), ("v = {m(a = 1) { 'x'; }};", "yes"), ("v = {m({a}) { ; 'use strict'; }};", "yes"), ("v = {set m(a = 1) { 'use strict'; }};", "no"), ("v = {set m({a}) { 'use strict'; }};", "no"), ("v = {set m(a) { 'use strict'; }};", "yes"), ("class K { m(a = 1) { 'use strict'; } }", "no"), ("class K { async m(...a) { 'use strict'; } }", "no"), ("class K { m(a, b) { 'use strict'; } }", "yes"), ("v = {*m([a]) { 'use strict'; }};", "no"), ("v = {async m(a, [b]) { \"use strict\" }};", "no"),
    // rest
    ("function f(...a) {}", "yes"), ("function f(...a, b) {}", "no"), ("function f(...a,) {}", "no"), ("function f(a, ...b) {}", "yes"), ("function f(...[a]) {}", "yes"), ("function f(...a = 1) {}", "no"), ("v = (...a, b) => 1;", "no"), ("v = (...a) => 1;", "yes"), ("v = (a, ...b) => 1;", "yes"), ("v = async (...a) => 1;", "yes"), ("var [...a, b] = v;", "no"), ("var [...a,] = v;", "no"), ("var {...a, b} = v;", "no"), ("var {...a,} = v;", "no"), ("var {a, ...b} = v;", "yes"), ("[...a, b] = v;", "no"), ("[...a,] = v;", "no"), ("({...a, b} = v);", "no"), ("({...a,} = v);", "no"), ("[...a] = v;", "yes"), ("v = [...a, b];", "yes"), ("v = {...a, b};", "yes"), ("f(...a, b);", "yes"), ("f(...a,);", "yes"), ("try {} catch (...a) {}", "no"), ("var ...a = v;", "no"), ("class K { m(...a, b) {} }", "no"),
    // declarations
    ("var {a};", "no"), ("var [a];", "no"), ("let {a};", "no"), ("let [a], b;", "no"), ("const [a];", "no"), ("var a, {b};", "no"), ("let {a} = v;", "yes"), ("const [a] = v;", "yes"), ("var a, b;", "yes"), ("for (var {a};;);", "no"), ("for (let [a];;);", "no"), ("for (let [a] of v);", "yes"), ("for (const {a} in v);", "yes"), ("for (var {a} = v;;) break;", "yes"), ("var {a} = v, [b];", "no"), ("var;", "no"), ("const;", "no"), ("var a,;", "no"), ("let {a} = v, [b] = v;", "yes"),
    ("var 1;", "no"), ("var a.b;", "no"), ("var (a);", "no"), ("let 'a' = 1;", "no"), ("var a += 1;", "no"), ("function f(1) {}", "no"), ("function f(a.b) {}", "no"), ("function f(a b) {}", "no"), ("function f(,) {}", "no"), ("function f(a,) {}", "yes"), ("function f((a)) {}", "no"), ("try {} catch (1) {}", "no"), ("try {} catch () {}", "no"),
    // delete
    ("delete u;", "sloppy"), ("delete (u);", "sloppy"), ("delete ((u));", "sloppy"), ("delete u.a;", "yes"), ("delete (u.a);", "yes"), ("delete u[0];", "yes"), ("delete u();", "yes"), ("v = delete u;", "sloppy"), ("delete this;", "yes"), ("delete 1;", "yes"), ("if (delete u) ;", "sloppy"), ("v = () => delete u;", "sloppy"), ("v = () => { 'use strict'; delete u };", "no"), ("class K { m() { delete u; } }", "no"), ("class K { m() { delete u.a; } }", "yes"), ("function f() { 'use strict'; delete u; }", "no"), ("delete delete u;", "sloppy"), ("typeof delete u;", "sloppy"), ("delete -u;", "yes"), ("v = -delete (u);", "sloppy"), ("class K extends (delete u) {}", "no"), ("delete (u, w);", "yes"),
    ("typeof u;", "yes"), ("void u;", "yes"),
    // optional chains and templates
    ("u?.a`b`;", "no"), ("u?.`b`;", "no"), ("u?.a.b`c`;", "no"), ("u?.[0]`a`;", "no"), ("u?.a`b${v}c`;", "no"), ("u?.()`a`;", "no"), ("u?.a()`b`;", "no"), ("(u?.a)`b`;", "yes"), ("u.a`b`;", "yes"), ("u?.[`b`];", "yes"), ("u?.a(`b`);", "yes"), ("u?.`b${v}c`;", "no"), ("new u?.a;", "no"), ("new u?.a();", "no"), ("new u?.();", "no"), ("new u?.[0];", "no"), ("new u()?.a;", "yes"), ("new (u?.a)();", "yes"), ("new new u()?.a;", "no"), ("new u().a?.b;", "yes"), ("u?.;", "no"), ("u?.1;", "no"), ("u?.'a';", "no"), ("u?.a = 1;", "no"), ("u?.a++;", "no"), ("++u?.a;", "no"), ("[u?.a] = v;", "no"), ("({a: u?.b} = v);", "no"), ("for (u?.a of v);", "no"), ("for (u?.a in v);", "no"), ("u?.a += 1;", "no"), ("delete u?.a;", "yes"), ("import?.a;", "no"), ("new import('a');", "no"), ("import();", "no"), ("import('a', 'b');", "no"), ("import(...v);", "no"), ("v = import('a');", "yes"), ("import('a').b;", "yes"),
    // cover grammars
    ("({a = 1});", "no"), ("v = {a = 1};", "no"), ("f({a = 1});", "no"), ("v = [{a = 1}];", "no"), ("({a = 1} = v);", "yes"), ("[{a = 1}] = v;", "yes"), ("[{a = 1} b] = v;", "no"), ("[{a = 1} {b}] = v;", "no"), ("[{a = 1}, b] = v;", "yes"), ("[{a = 1} = {} b] = v;", "no"), ("for ([a b] of v);", "no"), ("for ([a {b}] in v);", "no"), ("for ([a,, b] in v);", "yes"), ("for ({a b} of v);", "no"), ("({a = 1}) => 1;", "yes"), ("v = ({a = 1}) => 1;", "yes"), ("v = ([{a = 1}]) => 1;", "yes"), ("({a = 1} += v);", "no"), ("({a = 1}).b;", "no"), ("({a: {b = 1}});", "no"), ("({a: {b = 1}} = v);", "yes"), ("for ({a = 1} of v);", "yes"), ("v = {a = 1} = u;", "yes"), ("({a = 1}, 2);", "no"), ("v = {a: 1 = 2};", "no"), ("({if = 1} = v);", "no"), ("({'a' = 1} = v);", "no"), ("({a() {} = 1} = v);", "no"), ("if ({a = 1}) ;", "no"), ("v = ({a = 1});", "no"), ("return_({a = 1});", "no"), ("v = `${{a = 1}}`;", "no"), ("v = ({a = 1} = {}) => 1;", "yes"), ("v = {a = 1}.b;", "no"), ("v = -{a = 1};", "no"), ("v = {a = 1} ? 1 : 2;", "no"), ("v = 1 + {a = 1};", "no"),
    ("();", "no"), ("v = ();", "no"), ("(...a);", "no"), ("v = (a, ...b);", "no"), ("v = ([...a]);", "yes"), ("v = (...a) + 1;", "no"), ("v = () + 1;", "no"), ("v = (a, );", "no"), ("() => {};", "yes"), ("v = () => {}.a;", "no"), ("v = () => {} + 1;", "no"), ("v = () => {}();", "no"), ("v = (() => {})();", "yes"), ("v = 1 + () => {};", "no"), ("v = a || () => {};", "no"), ("v = !() => {};", "no"), ("v = () => {} ? 1 : 2;", "no"), ("v = a ? () => {} : () => 1;", "yes"), ("v = new () => {};", "no"), ("v = () => {}, 1;", "yes"), ("v = (1) => 1;", "no"), ("v = (a.b) => 1;", "no"), ("v = (a()) => 1;", "no"), ("v = (a, 1) => 1;", "no"), ("v = ((a)) => 1;", "no"), ("v = ('a') => 1;", "no"), ("v = (a + b) => 1;", "no"), ("v = ([a.b]) => 1;", "no"), ("v = ({a: b.c}) => 1;", "no"), ("v = (this) => 1;", "no"), ("v = f(a) => 1;", "no"), ("v = async (1) => 1;", "no"), ("v = async (a.b) => 1;", "no"), ("v = 1 => 1;", "no"), ("v = (a = 1) => 1;", "yes"), ("v = (a += 1) => 1;", "no"), ("v = a.b => 1;", "no"), ("v = async a.b => 1;", "no"), ("v = (a) => {} = 1;", "no"), ("v = (a) => 1 = 2;", "no"), ("() => {}++;", "no"), ("typeof () => {};", "no"),
    // for
    ("for (var a of b, c);", "x"), ("for (a of b of c);", "no"), ("for (var a, b of c);", "no"), ("for (var a, b in c);", "no"), ("for (let a = 1 of b);", "no"), ("for (const a = 1 in b);", "no"), ("for (a);", "no"), ("for (a; b);", "no"), ("for (;);", "no"), ("for (;;;);", "no"), ("for (1 of b);", "no"), ("for (a() of b);", "no"), ("for (a() in b);", "no"), ("for (a + b of c);", "no"), ("for (a = 1 of b);", "no"), ("for (a.b of c);", "yes"), ("for (a[0] in c);", "yes"), ("for ((a) of b);", "yes"), ("for (this of b);", "no"), ("for ([a, b] of c);", "yes"), ("for ([a + b] of c);", "no"), ("for ({a: b()} of c);", "no"), ("for ([1] of c);", "no"), ("for (var a in b in c);", "yes"), ("for (var a = b in c;;) break;", "no"), ("for (var a = (b in c);;) break;", "yes"), ("for (a = b in c;;) break;", "no"), ("for (a = (b in c);;) break;", "yes"), ("for (;;) ", "no"),
    // statements
    ("try {}", "no"), ("try {} v;", "no"), ("try {} catch {}", "yes"), ("try {} finally {}", "yes"), ("try {} catch (e) {} finally {}", "yes"), ("try v; catch {}", "no"), ("try {} finally {} catch {}", "no"), ("throw;", "no"), ("throw\nv;", "no"), ("throw v;", "yes"), ("throw v, u;", "yes"), ("if v;", "no"), ("if (v);", "yes"), ("if () v;", "no"), ("else v;", "no"), ("while ();", "no"), ("do v; while ();", "no"), ("do v while (u);", "no"), ("switch (v) { default: default: }", "x"), ("switch (v) { v; }", "no"), ("switch (v) { case: }", "no"), ("switch () {}", "no"), ("with () v;", "no"), ("catch (e) {}", "no"), ("finally {}", "no"), ("break 1;", "no"), ("continue 'a';", "no"), ("debugger v;", "no"), ("l: let_; m: ;", "yes"), ("function () {}", "no"), ("class {}", "no"), ("function* () {}", "no"), ("async function () {}", "no"), ("class extends B {}", "no"), ("v = function () {};", "yes"), ("v = class {};", "yes"), ("function f {}", "no"), ("function f();", "no"), ("class K { v }", "x"), ("class K { m }", "x"), ("class K { m() }", "no"), ("class K { get m }", "x"), ("class K extends {}", "no"), ("class K extends B, C {}", "no"), ("class K { m() {}, n() {} }", "no"), ("class K { m() {}; n() {} }", "yes"), ("class K { m: 1 }", "no"), ("class K extends a + b {}", "no"), ("class K extends a = b {}", "no"), ("class K extends a.b() {}", "yes"),
    ("v = {a b};", "no"), ("v = {a: };", "no"), ("v = {1};", "no"), ("v = {'a'};", "no"), ("v = {a, , b};", "no"), ("v = {,};", "no"), ("v = {a: 1,};", "yes"), ("v = {if};", "no"), ("v = {[v]};", "no"), ("v = {get m: 1};", "no"), ("v = {*m: 1};", "no"), ("v = {async m: 1};", "no"), ("v = {get [v]() {}};", "yes"), ("v = {a.b: 1};", "no"), ("v = {static m() {}};", "no"), ("v = {*get m() {}};", "no"), ("v = {get *m() {}};", "no"), ("v = {...};", "no"), ("v = [...];", "no"), ("f(...);", "no"), ("f(,);", "no"), ("f(a,);", "yes"), ("f(a,,b);", "no"), ("f(a b);", "no"), ("v = [a b];", "no"), ("v = [,,];", "yes"), ("v = a ? b;", "no"), ("v = a ? : b;", "no"), ("v = a ? b : ;", "no"), ("v = (a;", "no"), ("v = a);", "no"), ("v = [a;", "no"), ("v = a +;", "no"), ("v = * a;", "no"), ("v = a b;", "no"), ("v = a.;", "no"), ("v = a[];", "no"), ("v = a..b;", "no"), ("v = .a;", "no"), ("v = ++;", "no"), ("v = ++1;", "no"), ("v = a++ ++;", "no"), ("v = ++a++;", "no"), ("v = + ++a;", "yes"), ("v = a = ;", "no"), ("v = a =;", "no"), ("v = a == ;", "no"), ("= 1;", "no"), ("v = =>1;", "no"), ("v = new;", "no"), ("v = typeof;", "no"), ("v = `${}`;", "no"), ("v = `${a b}`;", "no"), ("v = , a;", "no"), ("v = a,;", "no"), (", a;", "no"), ("v = a = b = c;", "yes"), ("v = a + b = c;", "no"), ("v = a ? b : c = d;", "yes"), ("v = (a ? b : c) = d;", "no"), ("v = !a = b;", "no"), ("v = (a = b) = c;", "no"), ("{a: 1, b: 2};", "no"), ("{a: 1};", "yes"),
    // yield and await
    ("v = yield 1;", "y"), ("v = await u;", "a"), ("yield* u;", "gen*"), ("yield 'a';", "y"), ("await 1;", "a"), ("function f(u = yield 1) {}", "no"), ("v = () => yield 1;", "no"), ("v = () => await u;", "no"), ("v = async () => await u;", "yes"), ("v = async () => { await u };", "yes"), ("function* f() { yield 1; }", "yes"), ("function* f() { await u; }", "no"), ("async function f() { await u; }", "yes"), ("async function f() { yield 1; }", "no"), ("async function* f() { yield await u; }", "yes"), ("function f() { await u; }", "no"), ("function f() { yield 1; }", "no"), ("async function f() { function g() { await u; } }", "no"), ("function* f() { function g() { yield 1; } }", "no"), ("async function f() { v = () => await u; }", "no"), ("async function f() { for await (v of u); }", "yes"), ("for await (v of u);", "a"), ("async function f() { for await (v in u); }", "no"), ("async function f() { for await (;;); }", "no"), ("function f() { for await (v of u); }", "no"), ("async function f() { for await (var v of u); }", "yes"), ("async function f() { for await (let [v] = u;;); }", "no"), ("v = {*m() { yield 1; }};", "yes"), ("v = {async m() { await u; }};", "yes"), ("v = {async m() { yield 1; }};", "no"), ("v = {*m() { await u; }};", "no"), ("v = {async *m() { yield await u; }};", "yes"), ("class K { *m() { yield 1 } }", "yes"), ("class K { async m() { await u; } }", "yes"), ("v = await;", "na"), ("v = yield = 1;", "x"), ("function* f() { yield = 1; }", "no"), ("function* f() { v = 1 + yield 2; }", "no"), ("function* f() { v = 1 + (yield 2); }", "yes"), ("async function f() { v = 1 + await u; }", "yes"), ("async function f() { v = await u ** 2; }", "x"), ("async function f() { await u = 1; }", "no"), ("async function f() { await u++; }", "yes"), ("async function f() { (await u)++; }", "no"), ("function* f() { yield ? 1 : 2; }", "no"), ("function* f() { yield\n* 2; }", "no"), ("function* f() { (yield) ? 1 : 2; }", "yes"),
    // import and export belong to modules
    ("import 'm';", "no"), ("import u from 'm';", "no"), ("export var u;", "no"), ("export default 1;", "no"), ("export {u};", "no"), ("export * from 'm';", "no"), ("import {u} from 'm';", "no"), ("export function f() {}", "no"),
];
const MODULE: &[(&str, bool)] = &[
    ("import 'm';", true), ("import u from 'm';", true), ("import * as u from 'm';", true), ("import {} from 'm';", true), ("import {a, b as c,} from 'm';", true), ("import u, {a} from 'm';", true), ("import u, * as w from 'm';", true),
    ("import u;", false), ("import u from m;", false), ("import {a} 'm';", false), ("import * from 'm';", false), ("import * as 'm' from 'm';", false), ("import {a as} from 'm';", false), ("import {a b} from 'm';", false), ("import {a}, u from 'm';", false), ("import u, w from 'm';", false), ("import * as u, {a} from 'm';", false), ("import from 'm';", false), ("import {1 as a} from 'm';", false), ("import u, from 'm';", false), ("import u from 'm' v;", false), ("import {*} from 'm';", false), ("import u from `m`;", false), ("import u from 1;", false), ("import 1;", false), ("import {a as b.c} from 'm';", false), ("import u.v from 'm';", false),
    ("export {};", true), ("export {a, b as c,};", true), ("export {a} from 'm';", true), ("export * from 'm';", true), ("export * as u from 'm';", true), ("export var u;", true), ("export let u = 1;", true), ("export const u = 1, w = 2;", true), ("export function f() {}", true), ("export function* f() {}", true), ("export async function f() {}", true), ("export class K {}", true), ("export default 1;", true), ("export default function () {}", true), ("export default function* () {}", true), ("export default async function () {}", true), ("export default class {}", true), ("export default class extends B {}", true), ("export default class K {}", true), ("export default () => 1;", true), ("export default [1];", true), ("export default {a: 1};", true), ("export default (1, 2);", true), ("export default async () => 1;", true), ("export default u = 1;", true),
    ("export u;", false), ("export 1;", false), ("export function () {}", false), ("export class {}", false), ("export async function () {}", false), ("export default 1, 2;", false), ("export default var u;", false), ("export default let u;", false), ("export default const u = 1;", false), ("export default;", false), ("export * as from 'm';", false), ("export *;", false), ("export * 'm';", false), ("export {a b};", false), ("export {a as};", false), ("export {a} from m;", false), ("export {a} from;", false), ("export {'a'};", false), ("export if (v) {}", false), ("export var {u};", false), ("export let;", false), ("export import 'm';", false), ("export export u;", false), ("export {a} = v;", false), ("export;", false), ("export default return;", false), ("return;", false), ("export () => 1;", false), ("export {*};", false), ("export {a, b} c;", false),
    ("with_;", true), ("delete u;", false), ("delete u.a;", true), ("eval = 1;", false), ("arguments++;", false), ("u = 1;", true), ("function f() { delete u; }", false), ("v = () => { eval = 1 };", false),
];

pub struct Early;
fn early_verdict(needs: &str, cx: Cx) -> Option<bool> {
    Some(match needs {
        "yes" => true,
        "no" => false,
        "ret" => cx.ret,
        "sup" => cx.sup,
        "meth" => cx.meth,
        "sloppy" => !cx.strict,
        "y" => cx.y,
        "gen*" => cx.y || !cx.strict,
        "a" => cx.a,
        "na" => !cx.a,
        _ => return None,
    })
}
impl Mode for Early {
    fn rule(&self) -> &'static str {
        "a statement with or without an early error (assignment targets, super, return, delete, new.target, parameters, rest, cover grammars, for heads, modules and more) inside random nesting of functions, classes, objects and statements; accepted exactly when ECMAScript has no error there"
    }
    fn case(&mut self, n: u64, r: &mut Rng) -> Option<Case> {
        if r.one_in(14) {
            let (t, ok) = *r.pick(MODULE);
            let pre = if r.one_in(2) { *r.pick(&["", "v = 1;", "import 'n';", "function* f() { yield }", "class K extends B { constructor() { super() } }"]) } else { "" };
            let src = format!("{pre}{t}");
            let fail = expect(&src, true, ok, &format!("`{t}` is {} in a module", if ok { "valid" } else { "an error" }));
            return Some(Case { key: src, nontrivial: true, fail });
        }
        let (pre, post, cx) = nest(r, (n % 5) as usize);
        let (probe, v, why) = if r.one_in(3) {
            let (t, simple, ev) = target(r);
            let u = *r.pick(TARGET_USE);
            // fajt reads `[` and `{` inside of a pattern as a nested pattern (a known finding)
            let mut v = Some(simple && !(ev && cx.strict));
            if t.starts_with('[') && (u.contains('[') || u.contains('{')) {
                v = None;
            }
            let probe = u.replace('@', &t);
            (probe, v, format!("`{t}` is {} in `{u}`", if v == Some(true) { "a valid target" } else { "no valid target" }))
        } else {
            let (t, needs) = *r.pick(EARLY);
            let v = early_verdict(needs, cx);
            (t.to_string(), v, format!("`{t}` is {}", if v == Some(true) { "valid" } else { "an error" }))
        };
        let src = format!("{pre}{probe}{post}");
        let fail = v.and_then(|ok| expect(&src, false, ok, &format!("{why} where {cx:?}")));
        Some(Case { key: src, nontrivial: v.is_some(), fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        replay_expect(i)
    }
}

// ---- automatic semicolon insertion ---------------------------------------------------------------------------

/// statements that need a terminator: (text, needs as in EARLY)
const NEED: &[(&str, &str)] = &[
    ("v", "yes"), ("v = 1", "yes"), ("f()", "yes"), ("f(a, b)", "yes"), ("var a", "yes"), ("var a = 1, b", "yes"), ("var [a] = v", "yes"), ("let c", "yes"), ("let c = u, d = 1", "yes"), ("const d = 1", "yes"), ("const {d} = v", "yes"),
    ("return", "ret"), ("return v", "ret"), ("return a, b", "ret"), ("return a + b", "ret"), ("throw v", "yes"), ("throw new E()", "yes"), ("break", "yes"), ("continue", "yes"), ("break l", "yes"), ("continue l", "yes"), ("debugger", "yes"),
    ("v++", "yes"), ("v.a--", "yes"), ("++v", "yes"), ("-v", "yes"), ("!v", "yes"), ("typeof v", "yes"), ("v = () => 1", "yes"), ("v = () => {}", "yes"), ("v = a => a", "yes"), ("v = async () => {}", "yes"), ("v = async a => a", "yes"), ("v = function () {}", "yes"), ("v = class {}", "yes"), ("v = {a: 1}", "yes"), ("v = [1]", "yes"),
    ("v = a + b", "yes"), ("v = a ? b : c", "yes"), ("v = `t`", "yes"), ("v = `a${b}c`", "yes"), ("v = /re/g", "yes"), ("v = 'a'", "yes"), ("v = 1.5", "yes"), ("v = null", "yes"), ("v = this", "yes"), ("v = true", "yes"), ("new u", "yes"), ("new u()", "yes"), ("a, b", "yes"), ("a.b", "yes"), ("a[0]", "yes"), ("a?.b", "yes"), ("(a)", "yes"), ("a += 1", "yes"), ("[a] = v", "yes"), ("({a} = v)", "yes"), ("v = a = b", "yes"), ("v = async", "yes"), ("v = get", "yes"), ("v = of", "yes"),
    ("yield", "y"), ("yield v", "y"), ("v = yield", "y"), ("yield* v", "y"), ("await v", "a"), ("v = await f()", "a"), ("v = new.target", "yes"), ("super.a", "meth"), ("super()", "sup"), ("'x'.a", "yes"), ("v = import('a')", "yes"),
];
/// statements that continue nothing: their first token cannot follow an expression
const NEXT: &[&str] = &[
    "w = 1;", "w;", "var w;", "const w = 2;", "if (w) ;", "while (w) ;", "for (;;) break;", "throw w;", "break;", "continue;", "debugger;", "try {} finally {}", "switch (w) {}", "{ w; }", "{}", "!w;", "~w;", "typeof w;", "void 0;", "delete w.a;", "new w;", "1;", "1.5;", "'s';", "\"s\";", "this;", "null;", "true;", "function k() {}", "class K {}", "function* k2() {}", "async function k3() {}", "w: ;", "get;", "of;", "async () => 1;", "x => 1;", "++w;", "--w.a;", "do w; while (w);", "super_;", "import_;", "let w;", "0x1f;", "w => {};",
];
/// tokens an expression goes on with, on the next line too
const GOON: &[&str] = &[
    "+ w;", "- w;", "* w;", "/ w;", "% w;", "** w;", ".w;", "?.w;", "?.[w];", "(w);", "(w)(1);", "[w];", "[w].a;", "`t`;", "`a${w}b`;", ", w;", "? w : x;", "&& w;", "|| w;", "?? w;", "| w;", "^ w;", "& w;", "== w;", "=== w;", "!= w;", "!== w;", "< w;", "> w;", "<= w;", ">= w;", "<< w;", ">> w;", ">>> w;", "in w;", "instanceof w;", "/ w / x;", "= w;", "+= w;", "-= w;", "*= w;", "/= w;", "**= w;", "&= w;", ">>>= w;", ".w = 1;", ".w();", "(w) + 1;", "+ +w;", "- -w;", "/ /re/;",
];
/// texts whose meaning depends on a line break between @ and what follows: (with a line break, the same program, needs)
const RESTRICTED: &[(&str, &str, &str)] = &[
    ("v@++w;", "v; ++w;", "yes"), ("v@--w;", "v; --w;", "yes"), ("v.a@++w.b;", "v.a; ++w.b;", "yes"), ("v@++@w;", "v; ++w;", "yes"), ("(v)@--w;", "(v); --w;", "yes"), ("a = b@++c;", "a = b; ++c;", "yes"), ("a = b + c@(d + e).f();", "a = b + c(d + e).f();", "yes"),
    ("v@++;", "", "yes"), ("v@--;", "", "yes"), ("v@++@;", "", "yes"), ("v = a@++;", "", "yes"), ("v++@++w;", "v++; ++w;", "yes"),
    ("return@v;", "return; v;", "ret"), ("return@a + b;", "return; a + b;", "ret"), ("return@;", "return;", "ret"), ("return@[a];", "return; [a];", "ret"), ("return@(a);", "return; (a);", "ret"), ("return@`a`;", "return; `a`;", "ret"), ("return@/re/;", "return; /re/;", "ret"), ("return@-a;", "return; -a;", "ret"), ("return a@+ b;", "return a + b;", "ret"), ("return (@a);", "return (a);", "ret"), ("return@{ a }", "return; { a }", "ret"), ("return@function k() {}", "return; function k() {}", "ret"),
    ("break@l;", "break; l;", "yes"), ("continue@l;", "continue; l;", "yes"), ("break@(l);", "break; (l);", "yes"), ("continue@[l];", "continue; [l];", "yes"), ("break@l: ;", "break; l: ;", "yes"), ("break@{}", "break; {}", "yes"), ("break@1;", "break; 1;", "yes"),
    ("throw@v;", "", "yes"), ("throw@new E;", "", "yes"), ("throw@(v);", "", "yes"), ("throw v@;", "throw v;", "yes"), ("throw v@w;", "throw v; w;", "yes"), ("throw (@v);", "throw (v);", "yes"), ("throw@{};", "", "yes"),
    ("yield@v;", "yield; v;", "y"), ("yield@(v);", "yield; (v);", "y"), ("yield@[v];", "yield; [v];", "y"), ("yield@* v;", "", "y"), ("v = yield@w;", "v = yield; w;", "y"), ("yield v@w;", "yield v; w;", "y"), ("yield*@v;", "yield* v;", "y"), ("yield@'a';", "yield; 'a';", "y"), ("yield@!v;", "yield; !v;", "y"),
    ("await@v;", "await v;", "a"), ("v = await@w;", "v = await w;", "a"), ("await v@w;", "await v; w;", "a"),
    ("v = x@=> 1;", "", "yes"), ("v = (x)@=> 1;", "", "yes"), ("v = ()@=> 1;", "", "yes"), ("v = x =>@1;", "v = x => 1;", "yes"), ("v = x =>@{};", "v = x => {};", "yes"), ("v = (x,@y) => 1;", "v = (x, y) => 1;", "yes"), ("v = async x@=> 1;", "", "yes"), ("v = async (x)@=> 1;", "", "yes"), ("v = async ()@=> {};", "", "yes"), ("v = async@(x);", "v = async(x);", "yes"), ("v = async x =>@1;", "v = async x => 1;", "yes"), ("v = async@x => 1;", "v = async; x => 1;", "yes"), ("v = async@x;", "v = async; x;", "yes"), ("v = async@(x) => 1;", "", "yes"), ("v = async@() => {};", "", "yes"),
    ("v = async@function k() {}", "v = async; function k() {}", "yes"), ("async@function k() {}", "async; function k() {}", "yes"), ("v = async function@k() {};", "v = async function k() {};", "yes"), ("async function@k() {}", "async function k() {}", "yes"), ("function@k() {}", "function k() {}", "yes"), ("async@x => 1;", "async; x => 1;", "yes"),
    ("let@x;", "let x;", "yes"), ("let@x = 1;", "let x = 1;", "yes"), ("let@[x] = v;", "let [x] = v;", "yes"), ("let@{x} = v;", "let {x} = v;", "yes"), ("var@x;", "var x;", "yes"), ("var@x@;", "var x;", "yes"), ("var x@= 1;", "var x = 1;", "yes"), ("var x@, y;", "var x, y;", "yes"), ("const@x@= 1@;", "const x = 1;", "yes"), ("var@x@y;", "var x; y;", "yes"),
    ("v = {@a@:@1@};", "v = {a: 1};", "yes"), ("v = {get@m() {}};", "v = {get m() {}};", "yes"), ("v = {set@m(a) {}};", "v = {set m(a) {}};", "yes"), ("v = {*@m() {}};", "v = {*m() {}};", "yes"), ("v = {async@m() {}};", "", "yes"), ("class@K@{@m() {}@n() {}@}", "class K { m() {} n() {} }", "yes"), ("class K { static@m() {} }", "class K { static m() {} }", "yes"), ("class K { async@m() {} }", "x", "yes"),
    ("if (v)@w;@else x;", "if (v) w; else x;", "yes"), ("if (v) w@else x;", "if (v) w; else x;", "yes"), ("if (v)@{ w }@else@x;", "if (v) { w } else x;", "yes"), ("if@(v)@w;", "if (v) w;", "yes"), ("if (v)@else w;", "", "yes"), ("if (v)@", "", "yes"), ("while (v)@", "", "yes"), ("for (;;)@", "", "yes"), ("else@w;", "", "yes"),
    ("for (a@b@c) ;", "", "yes"), ("for (a; b@) ;", "", "yes"), ("for (a@; b; c) ;", "for (a; b; c) ;", "yes"), ("for (a;@b;@c) ;", "for (a; b; c) ;", "yes"), ("for (@;@;@)@;", "for (;;) ;", "yes"), ("for (var a@of b) ;", "for (var a of b) ;", "yes"), ("for (;@) ;", "", "yes"), ("for (@) ;", "", "yes"), ("for (a;@) ;", "", "yes"),
    ("do w@while (v);", "do w; while (v);", "yes"), ("do w;@while (v)@x;", "do w; while (v); x;", "yes"), ("do {}@while@(v)@x;", "do {} while (v); x;", "yes"), ("while (v)@w;", "while (v) w;", "yes"), ("do;while (v) x;", "do;while (v); x;", "yes"), ("do {} while (v) x;", "do {} while (v); x;", "yes"), ("do {} while (v)@;", "do {} while (v);", "yes"),
    ("v@instanceof w;", "v instanceof w;", "yes"), ("v@in w;", "v in w;", "yes"), ("new@v;", "new v;", "yes"), ("new@v@(1);", "new v(1);", "yes"), ("typeof@v;", "typeof v;", "yes"), ("delete@v.a;", "delete v.a;", "yes"), ("!@v;", "!v;", "yes"), ("++@v;", "++v;", "yes"), ("-@v;", "-v;", "yes"), ("v@.@a;", "v.a;", "yes"), ("v@?.@a;", "v?.a;", "yes"), ("f@(@a@,@b@);", "f(a, b);", "yes"), ("v@[@a@];", "v[a];", "yes"), ("v@? a@: b;", "v ? a : b;", "yes"), ("l@:@;", "l: ;", "yes"), ("l@:@w;", "l: w;", "yes"), ("v@`t`;", "v`t`;", "yes"), ("v = a@/re/g.x;", "v = a / re / g.x;", "yes"), ("{ a@b }", "{ a; b; }", "yes"), ("{ a@}@b;", "{ a; } b;", "yes"), ("{ 1@2 } 3;", "{ 1; 2; } 3;", "yes"),
    ("try@{}@catch@(e)@{}@finally@{}", "try {} catch (e) {} finally {}", "yes"), ("switch@(v)@{@case@1@:@w@case 2: x@default:@}", "switch (v) { case 1: w; case 2: x; default: }", "yes"), ("debugger@w;", "debugger; w;", "yes"), ("super@.a;", "super.a;", "meth"), ("super@(1);", "super(1);", "sup"), ("new@.@target;", "new.target;", "yes"), ("import@(v);", "import(v);", "yes"),
];
const NL: &[&str] = &["\n", "\r\n", "\r", "/*\n*/", " // c\n", " /* a */ \n /* b */ ", " /* a\r\n b */ ", "\n\n\t", " \n ", "/**/\n"];
const SP: &[&str] = &[" ", "\t", " /* a */ ", "/**/", "\u{b} "];
/// module statements that need a terminator
const MNEED: &[&str] = &["import 'm'", "import u from 'm'", "import {a} from 'm'", "import * as u from 'm'", "export {a}", "export {a} from 'm'", "export * from 'm'", "export * as u from 'm'", "export default v", "export default v + 1", "export default 1", "export var a", "export let a = 1", "export const a = 1", "export default () => {}", "export default [1]", "export default (function () {})"];

fn same(src: &str, want: &str, module: bool) -> Option<Failure> {
    let input = || json!({"source": src, "same_as": want, "module": module});
    let f = |what: String| Some(Failure { input: input(), what, signature: String::new() });
    let t = |p: fajt_ast::Program| {
        let mut j = serde_json::to_value(&p).unwrap();
        strip(&mut j);
        j
    };
    match (parse(src, module), parse(want, module)) {
        (Err(p), _) | (_, Err(p)) => f(p),
        (Ok(Ok(a)), Ok(Ok(b))) => diff(&t(b), &t(a), String::new()).and_then(|d| f(format!("does not read as `{}`: {d}", want.trim()))),
        (Ok(Err(e)), Ok(Ok(_))) => f(format!("rejected, but reads as `{}`: {e}", want.trim())),
        (Ok(Ok(_)), Ok(Err(e))) => f(format!("accepted, but reads as `{}`, which is an error: {e}", want.trim())),
        (Ok(Err(_)), Ok(Err(_))) => None,
    }
}

pub struct Asi;
impl Mode for Asi {
    fn rule(&self) -> &'static str {
        "statements joined with and without line breaks, comments, `;`, `}` and the end, inside random nesting: a `;` is inserted exactly where ECMAScript inserts one (same tree as with the `;` written out), a missing one is an error, an expression goes on over a line break, and the restricted productions"
    }
    fn case(&mut self, n: u64, r: &mut Rng) -> Option<Case> {
        let (mut pre, mut post, mut cx) = nest(r, (n % 4) as usize);
        let module = r.one_in(12);
        if module {
            pre = String::new();
            post = String::new();
            cx = Cx { y: false, a: false, strict: true, ret: false, meth: false, sup: false };
        }
        if r.one_in(3) {
            let (t, want, needs) = *r.pick(RESTRICTED);
            if early_verdict(needs, cx) != Some(true) || want == "x" || (cx.strict && (want.contains("let;") )) {
                return Some(Case { key: format!("skip {t}"), nontrivial: false, fail: None });
            }
            let mut s = String::new();
            for c in t.chars() {
                if c == '@' { s.push_str(r.pick(NL)) } else { s.push(c) }
            }
            let src = format!("{pre}{s}{post}");
            let fail = if want.is_empty() {
                if t.ends_with('@') && !post.trim().is_empty() && !post.trim().starts_with('}') {
                    None
                } else {
                    expect(&src, module, false, &format!("`{t}` is an error with a line break at each @"))
                }
            } else {
                same(&src, &format!("{pre}{want}{post}"), module).or_else(|| expect(&src, module, true, "it is valid"))
            };
            return Some(Case { key: src, nontrivial: true, fail });
        }
        let (s, needs) = if module && !r.one_in(3) { (*r.pick(MNEED), "yes") } else { *r.pick(NEED) };
        if early_verdict(needs, cx) != Some(true) {
            return Some(Case { key: format!("skip {s}"), nontrivial: false, fail: None });
        }
        let stop = matches!(s, "break" | "continue" | "return" | "yield" | "v = yield");
        let (src, want, ok) = match r.below(8) {
            // the end of the block or of the program
            0 | 1 => {
                let e = *r.pick(&["", " ", "\n", "/* c */", "// c\n", " // c"]);
                let (l, q) = if r.one_in(2) { ("{ ", "}") } else { ("", "") };
                if q.is_empty() && !post.trim().starts_with('}') && !post.trim().is_empty() || (e == " // c" && !(q.is_empty() && post.is_empty())) {
                    (format!("{pre}{l}{s}\n{q}{post}"), format!("{pre}{l}{s};{q}{post}"), Some(true))
                } else {
                    (format!("{pre}{l}{s}{e}{q}{post}"), format!("{pre}{l}{s};{q}{post}"), Some(true))
                }
            }
            // nothing between two statements but spaces: an error
            2 => {
                let t = *r.pick(NEXT);
                let first = t.chars().next().unwrap();
                let inc = t.starts_with("++") || t.starts_with("--");
                let reads_on = (s.starts_with("break") || s.starts_with("continue")) && first.is_alphabetic() || s.ends_with("async") || inc || s == "v = /re/g" || s.ends_with(" of") || s.ends_with("get");
                let v = if stop || reads_on { None } else { Some(false) };
                let src = format!("{pre}{s}{}{t}{post}", r.pick(SP));
                (src.clone(), src, v)
            }
            // an operator on the next line
            3 | 4 => {
                let t = *r.pick(GOON);
                if stop || s.starts_with("break") || s.starts_with("continue") || s == "debugger" {
                    let nl = *r.pick(NL);
                    (format!("{pre}{s}{nl}{t}{post}"), format!("{pre}{s};{t}{post}"), None)
                } else {
                    (format!("{pre}{s}{}{t}{post}", r.pick(NL)), format!("{pre}{s} {t}{post}"), if accepts(&format!("{pre}{s} {t}{post}"), module) == Ok(true) { Some(true) } else { None })
                }
            }
            // a statement on the next line
            _ => {
                let t = *r.pick(NEXT);
                let (a, b) = (format!("{pre}{s}{}{t}{post}", r.pick(NL)), format!("{pre}{s};{t}{post}"));
                (a, b, Some(true))
            }
        };
        let fail = if ok == Some(false) {
            expect(&src, module, false, &format!("`{s}` is not ended"))
        } else {
            ok.and_then(|_| same(&src, &want, module))
        };
        Some(Case { key: src, nontrivial: ok.is_some(), fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        if i["same_as"].is_string() {
            return same(i["source"].as_str().unwrap(), i["same_as"].as_str().unwrap(), i["module"] == json!(true));
        }
        replay_expect(i)
    }
}
