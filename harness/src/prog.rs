//! Random programs with the tree and the spans they must parse to.  The generator writes the text from left to right
//! and builds the expected tree (as the JSON the tree serialises to) at the same time, from the ECMAScript grammar.
use crate::rng::Rng;
use serde_json::{json, Value as J};

/// Grammar parameters and flags of the position.  `y`/`a`: the flags fajt reports for a plain method (it keeps the
/// enclosing ones); `ye`/`ae`: yield/await expressions may be written; `yi`/`ai`: they may be written as identifiers.
#[derive(Clone, Copy)]
pub struct Cx {
    pub in_: bool,
    pub y: bool,
    pub a: bool,
    pub ye: bool,
    pub ae: bool,
    pub yi: bool,
    pub ai: bool,
    pub strict: bool,
    pub ret: bool,
    pub meth: bool,
    pub sup: bool,
}
impl Cx {
    pub fn top() -> Self {
        Cx { in_: true, y: false, a: false, ye: false, ae: false, yi: true, ai: true, strict: false, ret: false, meth: false, sup: false }
    }
    fn inn(self) -> Self {
        Cx { in_: true, ..self }
    }
    /// where neither yield nor await may be used in either role
    fn still(self) -> Self {
        Cx { ye: false, ae: false, yi: false, ai: false, ..self }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum K {
    None,
    Word,
    Num,
    Punct,
    Other,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub out: String,
    pub module: bool,
    /// end of the last token
    end: usize,
    last: K,
    pub depth: usize,
    /// how often white space beyond what is needed is written: 0 never .. 3 often
    pub ws: usize,
    need_nl: bool,
    no_nl: bool,
    /// the next token begins a statement (or arrow body, or default export): some expressions may not start here
    lead: bool,
    /// the next token follows a statement that was ended by a line break
    safe: bool,
    /// places (byte offsets) where a mandatory `;` could be left out only by breaking the program
    pub tokens: Vec<(usize, usize)>,
    /// how many line breaks stand in for a semicolon
    pub asi: usize,
    /// features used, for the rule of distinctness
    pub rx: usize,
    /// parameters may end in a comma
    trailing: bool,
}

const IDENTS: &[&str] = &["a", "b", "c", "foo", "bar", "$", "_", "x1", "as_", "inn", "i", "newt", "ifx"];
const CTX_IDENTS: &[&str] = &["as", "from", "get", "of", "set", "target"];
const SLOPPY_IDENTS: &[&str] = &["implements", "interface", "package", "private", "protected", "public", "static"];
const RESERVED: &[&str] = &[
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "function", "if", "import", "in",
    "instanceof", "new", "null", "return", "super", "switch", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "await", "yield", "let", "static", "async", "of", "get", "set", "as", "from",
    "implements", "package",
];
const NUMS: &[&str] = &["0", "1", "42", "1.5", ".5", "5.", "1e3", "1E-3", "0xFf", "0b101", "0o17", "1_000", "10n_"];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, depth: usize) -> Self {
        let ws = r.below(4);
        Gen { r, out: String::new(), module: false, end: 0, last: K::None, depth, ws, need_nl: false, no_nl: false, lead: false, safe: false, tokens: vec![], asi: 0, rx: 0, trailing: true }
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.r.one_in(n)
    }
    fn ch(&mut self, n: usize) -> usize {
        self.r.below(n)
    }
    /// Writes the token `t` behind white space; yields its start.
    fn tok(&mut self, t: &str) -> usize {
        let c = t.chars().next().unwrap();
        let k = if c.is_ascii_alphabetic() || c == '_' || c == '$' {
            K::Word
        } else if c.is_ascii_digit() || (c == '.' && t.len() > 1 && t.as_bytes()[1].is_ascii_digit()) {
            K::Num
        } else if "+-*/<>=&|^!?.%~@#".contains(c) {
            K::Punct
        } else {
            K::Other
        };
        let regexp = t.len() > 2 && c == '/' && t != "/=";
        let must = match (self.last, k) {
            (K::Word, K::Word) | (K::Word, K::Num) | (K::Num, K::Word) | (K::Num, K::Num) | (K::Punct, K::Punct) => true,
            (K::Num, K::Punct) => c == '.',
            (K::Punct, K::Num) => c == '.',
            _ => false,
        };
        let mut sp = String::new();
        if self.need_nl {
            if c != '}' || self.one_in(2) {
                sp.push_str(*self.r.pick(&["\n", " \n ", "\r\n", "// c\n", "/* c */\n", "\u{2028}", "\n\n  "]));
                if t != "}" {
                    self.asi += 1;
                }
            }
        }
        let n = if self.ws == 0 { 0 } else if self.ch(4) < self.ws { 1 + self.ch(2) } else { 0 };
        for _ in 0..n {
            let s: &str = if self.no_nl {
                *self.r.pick(&[" ", "\t", "  ", "/* c */", "/**/"])
            } else {
                *self.r.pick(&[" ", "\t", "  ", "\n", "/* c */", "// c\n", "\n\n"])
            };
            sp.push_str(s);
        }
        if must && sp.is_empty() {
            sp.push(' ');
        }
        // line separators are not ASCII and would shift the positions
        let sp = sp.replace('\u{2028}', "\r");
        if self.out.ends_with('/') && sp.starts_with('/') {
            self.out.push(' ');
        }
        self.out.push_str(&sp);
        self.need_nl = false;
        self.no_nl = false;
        self.lead = false;
        self.safe = false;
        self.raw(t, if regexp { K::Word } else { k })
    }
    fn raw(&mut self, t: &str, k: K) -> usize {
        let s = self.out.len();
        self.out.push_str(t);
        self.end = self.out.len();
        self.last = k;
        self.tokens.push((s, self.end));
        s
    }
    fn sp(&self, s: usize) -> J {
        json!(format!("{}:{}", s, self.end))
    }
    fn span2(s: usize, e: usize) -> J {
        json!(format!("{s}:{e}"))
    }

    // ---- identifiers -------------------------------------------------------------------------------------------
    fn ident_name(&mut self, cx: Cx) -> &'static str {
        match self.ch(12) {
            0 => *self.r.pick(CTX_IDENTS),
            1 if !cx.strict => *self.r.pick(SLOPPY_IDENTS),
            2 if cx.yi && !cx.strict => "yield",
            3 if cx.ai => "await",
            4 if !cx.strict => *self.r.pick(&["eval", "arguments"]),
            _ => *self.r.pick(IDENTS),
        }
    }
    fn ident(&mut self, cx: Cx) -> J {
        let n = self.ident_name(cx);
        self.named(n)
    }
    fn named(&mut self, n: &str) -> J {
        let s = self.tok(n);
        json!({"span": self.sp(s), "name": n})
    }
    fn any_name(&mut self) -> J {
        let n = if self.one_in(3) { *self.r.pick(RESERVED) } else { *self.r.pick(IDENTS) };
        self.named(n)
    }

    // ---- literals ----------------------------------------------------------------------------------------------
    fn lit_string(&mut self) -> J {
        let d = if self.one_in(2) { '\'' } else { '"' };
        let v = self.r.pick(&["", "s", "a b", "//", "/*", "x;y", "${z}", "}"]).to_string();
        let esc = self.one_in(8);
        let text = if esc { format!("{d}{v}\\{d}\\\\{d}") } else { format!("{d}{v}{d}") };
        let val = if esc { format!("{v}{d}\\") } else { v };
        self.tok(&text);
        json!({"value": val, "delimiter": d.to_string()})
    }
    fn number(&mut self) -> J {
        let mut n = *self.r.pick(NUMS);
        if n.ends_with('_') {
            n = "7";
        }
        self.tok(n);
        json!({"raw": n})
    }
    fn template(&mut self, cx: Cx) -> J {
        let quasi = |g: &mut Self| g.r.pick(&["", "", "t", " a ", "$", "{", "}", "\n", "'"]).to_string();
        let n = if self.depth == 0 { 0 } else { self.ch(3) };
        let q = quasi(self);
        if n == 0 {
            self.tok(&format!("`{q}`"));
            self.last = K::Other;
            return json!({"parts": [{"String": q}]});
        }
        let mut parts = vec![];
        // a `$` directly before `${` is fine, a `$` at the end of the head is part of it
        self.tok(&format!("`{q}${{"));
        self.last = K::Other;
        if !q.is_empty() {
            parts.push(json!({"String": q}));
        }
        for i in 0..n {
            let e = self.expr(cx.inn());
            parts.push(json!({"Expr": e}));
            let q = quasi(self);
            let sp = if self.ws > 0 && self.one_in(3) { " " } else { "" };
            self.out.push_str(sp);
            if i + 1 == n {
                self.raw(&format!("}}{q}`"), K::Other);
            } else {
                self.raw(&format!("}}{q}${{"), K::Other);
            }
            if !q.is_empty() {
                parts.push(json!({"String": q}));
            }
        }
        json!({"parts": parts})
    }
    fn literal(&mut self, s: usize, l: J) -> J {
        json!({"Literal": {"span": self.sp(s), "literal": l}})
    }

    // ---- expressions -------------------------------------------------------------------------------------------
    pub fn expr(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let first = self.assign(cx);
        if self.depth > 0 && self.one_in(10) {
            let mut v = vec![first];
            for _ in 0..1 + self.ch(2) {
                self.tok(",");
                v.push(self.assign(cx));
            }
            let s = self.start(m);
            return json!({"Sequence": {"span": self.sp(s), "expr": v}});
        }
        first
    }
    fn mark(&self) -> usize {
        self.tokens.len()
    }
    /// start of the first token written since the mark
    fn start(&self, m: usize) -> usize {
        self.tokens[m].0
    }
    fn deeper<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let d = self.depth;
        self.depth = d.saturating_sub(1);
        let x = f(self);
        self.depth = d;
        x
    }
    pub fn assign(&mut self, cx: Cx) -> J {
        if self.depth == 0 {
            return self.cond(cx);
        }
        self.deeper(|g| match g.ch(13) {
            0 | 1 => g.assignment(cx),
            2 => g.arrow(cx),
            3 if cx.ye => g.yield_(cx),
            4 if !g.safe && g.one_in(2) => g.async_call(cx),
            _ => g.cond(cx),
        })
    }
    /// `async(…)`, a call of a function named async
    fn async_call(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let id = self.named("async");
        self.no_nl = true;
        let (asp, args) = self.args(cx);
        let s = self.start(m);
        json!({"Call": {"span": self.sp(s), "callee": {"Expr": {"IdentRef": id}}, "arguments_span": asp, "arguments": args}})
    }
    fn yield_(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("yield");
        let s = self.start(m);
        self.no_nl = true;
        let delegate = self.one_in(3);
        if delegate {
            self.tok("*");
        }
        let a = self.assign(cx);
        json!({"Yield": {"span": self.sp(s), "argument": a, "delegate": delegate}})
    }
    fn assignment(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let (left, op) = if self.safe {
            let id = self.ident(cx);
            (json!({"Expr": {"IdentRef": id}}), self.ch(26))
        } else if self.one_in(3) && !self.lead_brace_ok() {
            // `{` may not begin here
            let p = self.array_pattern(cx);
            (json!({"AssignmentPattern": p}), 0)
        } else if self.one_in(3) {
            let p = self.pattern(cx);
            (json!({"AssignmentPattern": p}), 0)
        } else {
            let t = self.target(cx);
            (json!({"Expr": t}), self.ch(26))
        };
        const OPS: &[(&str, &str)] = &[
            ("=", "Assign"),
            ("*=", "Multiply"),
            ("**=", "Power"),
            ("/=", "Divide"),
            ("%=", "Modulus"),
            ("+=", "Add"),
            ("-=", "Sub"),
            ("<<=", "LeftShift"),
            (">>=", "RightShift"),
            (">>>=", "UnsignedRightShift"),
            ("&=", "BitwiseAnd"),
            ("^=", "BitwiseXOr"),
            ("|=", "BitwiseOr"),
        ];
        let (t, n) = OPS[if op < OPS.len() { op } else { 0 }];
        self.tok(t);
        let right = self.assign(cx);
        let s = self.start(m);
        json!({"Assignment": {"span": self.sp(s), "operator": n, "left": left, "right": right}})
    }
    /// may a `{` begin here
    fn lead_brace_ok(&self) -> bool {
        !self.lead
    }
    fn pattern(&mut self, cx: Cx) -> J {
        if self.lead || self.one_in(2) {
            self.array_pattern(cx)
        } else {
            self.object_pattern(cx)
        }
    }
    fn sub_target(&mut self, cx: Cx) -> J {
        if self.depth > 0 && self.one_in(4) {
            self.deeper(|g| {
                let p = g.pattern(cx);
                json!({"AssignmentPattern": p})
            })
        } else {
            let t = self.target(cx);
            json!({"Expr": t})
        }
    }
    fn array_pattern(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        let m = self.mark();
        // `let [` would begin a declaration, `[` alone is fine
        self.tok("[");
        let mut els = vec![];
        let n = self.ch(4);
        let rest = self.one_in(4);
        let mut comma = true;
        for i in 0..n {
            if self.one_in(5) {
                self.tok(",");
                els.push(J::Null);
                comma = true;
                continue;
            }
            let em = self.mark();
            let t = self.sub_target(cx);
            let init = self.opt_init(cx);
            let s = self.start(em);
            els.push(json!({"span": self.sp(s), "target": t, "initializer": init}));
            comma = false;
            if i + 1 < n || rest || self.one_in(4) {
                // fajt counts the comma between two elements as an elision (known finding, pinned by its own tests)
                self.tok(",");
                els.push(J::Null);
                comma = true;
            }
        }
        let mut r = J::Null;
        if rest && comma {
            self.tok("...");
            r = self.sub_target(cx);
        }
        self.tok("]");
        let s = self.start(m);
        json!({"Array": {"span": self.sp(s), "elements": els, "rest": r}})
    }
    fn opt_init(&mut self, cx: Cx) -> J {
        if self.depth > 0 && self.one_in(4) {
            self.tok("=");
            self.deeper(|g| g.assign(cx.inn()))
        } else {
            J::Null
        }
    }
    fn object_pattern(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        let m = self.mark();
        self.tok("{");
        let mut props = vec![];
        let n = self.ch(4);
        let rest = self.one_in(5);
        for i in 0..n {
            let pm = self.mark();
            if self.one_in(2) {
                let id = self.shorthand(cx);
                let init = self.opt_init(cx);
                let s = self.start(pm);
                props.push(json!({"Single": {"span": self.sp(s), "ident": id, "initializer": init}}));
            } else {
                let name = self.prop_name(cx);
                self.tok(":");
                let t = self.sub_target(cx);
                let init = self.opt_init(cx);
                let s = self.start(pm);
                props.push(json!({"Named": {"span": self.sp(s), "name": name, "value": t, "initializer": init}}));
            }
            if i + 1 < n || rest || self.one_in(4) {
                self.tok(",");
            }
        }
        let mut r = J::Null;
        if rest {
            self.tok("...");
            r = self.sub_target(cx);
        }
        self.tok("}");
        let s = self.start(m);
        json!({"Object": {"span": self.sp(s), "props": props, "rest": r}})
    }
    fn shorthand(&mut self, cx: Cx) -> J {
        loop {
            let n = if self.one_in(6) { *self.r.pick(&["get", "set", "async"]) } else { self.ident_name(cx) };
            if cx.strict && (n == "eval" || n == "arguments") {
                continue;
            }
            return self.named(n);
        }
    }
    /// A simple assignment target.
    fn target(&mut self, cx: Cx) -> J {
        if self.depth == 0 || self.safe || self.one_in(2) {
            let id = self.ident(cx);
            return json!({"IdentRef": id});
        }
        self.deeper(|g| match g.ch(5) {
            0 => {
                let m = g.mark();
                g.tok("(");
                let e = g.target(cx.inn());
                g.tok(")");
                let s = g.start(m);
                json!({"Parenthesized": {"span": g.sp(s), "expression": e}})
            }
            _ => {
                let m = g.mark();
                let base = g.simple_base(cx);
                let e = g.suffixes(m, base, cx, 1);
                // the last step must be a member access
                g.member_step(m, json!({"Expr": e}), cx)
            }
        })
    }
    /// A primary expression that any suffix may follow.
    fn simple_base(&mut self, cx: Cx) -> J {
        match self.ch(4) {
            0 => {
                let m = self.mark();
                self.tok("this");
                let s = self.start(m);
                json!({"This": {"span": self.sp(s)}})
            }
            1 if self.depth > 0 && !self.safe => self.paren(cx),
            _ => {
                let id = self.ident(cx);
                json!({"IdentRef": id})
            }
        }
    }
    fn paren(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("(");
        let e = self.deeper(|g| if cx.ye && g.one_in(4) { g.bare_yield() } else { g.expr(cx.inn()) });
        self.tok(")");
        let s = self.start(m);
        json!({"Parenthesized": {"span": self.sp(s), "expression": e}})
    }
    /// a yield without argument, where the next token ends it
    fn bare_yield(&mut self) -> J {
        let s = self.tok("yield");
        json!({"Yield": {"span": self.sp(s), "argument": J::Null, "delegate": false}})
    }
    fn cond(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let lvl = if self.depth == 0 { 12 } else { *self.r.pick(&[0usize, 0, 1, 2, 3, 6, 7, 9, 12, 12, 12, 12]) };
        let c = self.bin(lvl, cx);
        if self.depth > 0 && self.one_in(10) {
            return self.deeper(|g| {
                g.tok("?");
                let a = if cx.ye && g.one_in(6) { g.bare_yield() } else { g.assign(cx.inn()) };
                g.tok(":");
                let b = g.assign(cx);
                let s = g.start(m);
                json!({"Conditional": {"span": g.sp(s), "condition": c, "consequent": a, "alternate": b}})
            });
        }
        c
    }
    fn bin(&mut self, lvl: usize, cx: Cx) -> J {
        const L: &[&[(&str, &str)]] = &[
            &[("??", "Coalesce")],
            &[("||", "Or")],
            &[("&&", "And")],
            &[("|", "BitwiseOR")],
            &[("^", "BitwiseXOR")],
            &[("&", "BitwiseAnd")],
            &[("==", "Equal"), ("!=", "NotEqual"), ("===", "StrictEqual"), ("!==", "StrictNotEqual")],
            &[("<", "LessThan"), (">", "MoreThan"), ("<=", "LessThanEquals"), (">=", "MoreThanEquals"), ("instanceof", "InstanceOf"), ("in", "In")],
            &[("<<", "ShiftLeft"), (">>", "ShiftRight"), (">>>", "ShiftRightUnsigned")],
            &[("+", "Plus"), ("-", "Minus")],
            &[("*", "Multiplication"), ("/", "Division"), ("%", "Modulus")],
        ];
        if lvl >= 12 || self.depth == 0 {
            return self.unary(cx);
        }
        if lvl == 11 {
            // one `**` only: fajt chains it to the left (known finding, pinned); the left operand is an update expression
            let m = self.mark();
            let l = self.update(cx);
            if self.one_in(3) {
                self.tok("**");
                let r = self.deeper(|g| g.unary(cx));
                let s = self.start(m);
                return json!({"Binary": {"span": self.sp(s), "operator": "Exponent", "left": l, "right": r}});
            }
            return l;
        }
        // `??` does not mix with `||` and `&&`
        let next = |g: &mut Self, lvl: usize| {
            let lo = if lvl == 0 { 3 } else { lvl + 1 };
            let hi = 12;
            lo + g.ch(hi - lo + 1)
        };
        let m = self.mark();
        let nl = next(self, lvl);
        let mut e = self.deeper(|g| g.bin(nl, cx));
        let n = self.ch(3);
        for _ in 0..n {
            let ops: Vec<_> = L[lvl].iter().filter(|o| cx.in_ || o.0 != "in").collect();
            let (t, name) = **self.r.pick(&ops);
            self.tok(t);
            let nr = next(self, lvl);
            let r = self.deeper(|g| g.bin(nr, cx));
            let s = self.start(m);
            let kind = if lvl < 3 { "Logical" } else { "Binary" };
            e = json!({kind: {"span": self.sp(s), "operator": name, "left": e, "right": r}});
        }
        e
    }
    fn unary(&mut self, cx: Cx) -> J {
        if self.depth == 0 {
            return self.lhs(cx);
        }
        match self.ch(8) {
            0 => self.deeper(|g| {
                const U: &[(&str, &str)] = &[("delete", "Delete"), ("void", "Void"), ("typeof", "Typeof"), ("+", "Plus"), ("-", "Minus"), ("~", "BitwiseNot"), ("!", "Not")];
                let m = g.mark();
                let mut ops: Vec<_> = U.iter().collect();
                if g.safe {
                    ops.retain(|o| o.0 != "+" && o.0 != "-");
                }
                let (t, n) = **g.r.pick(&ops);
                g.tok(t);
                let a = if t == "delete" {
                    let m = g.mark();
                    let b = g.simple_base(cx);
                    g.member_step(m, json!({"Expr": b}), cx)
                } else {
                    g.unary(cx)
                };
                let s = g.start(m);
                json!({"Unary": {"span": g.sp(s), "operator": n, "argument": a}})
            }),
            1 if cx.ae => self.deeper(|g| {
                let m = g.mark();
                g.tok("await");
                let a = g.unary(cx);
                let s = g.start(m);
                json!({"Await": {"span": g.sp(s), "argument": a}})
            }),
            _ => self.update(cx),
        }
    }
    fn update(&mut self, cx: Cx) -> J {
        if self.depth == 0 {
            return self.lhs(cx);
        }
        match self.ch(10) {
            0 => {
                let (t, n) = *self.r.pick(&[("++", "Increase"), ("--", "Decrease")]);
                let m = self.mark();
                self.tok(t);
                let a = self.target(cx);
                let s = self.start(m);
                json!({"Update": {"span": self.sp(s), "operator": n, "prefix": true, "argument": a}})
            }
            1 => {
                let (t, n) = *self.r.pick(&[("++", "Increase"), ("--", "Decrease")]);
                let m = self.mark();
                let a = self.target(cx);
                self.no_nl = true;
                self.tok(t);
                let s = self.start(m);
                json!({"Update": {"span": self.sp(s), "operator": n, "prefix": false, "argument": a}})
            }
            _ => self.lhs(cx),
        }
    }
    fn member_step(&mut self, m: usize, object: J, cx: Cx) -> J {
        let prop = if self.depth > 0 && self.one_in(3) {
            self.tok("[");
            let e = self.deeper(|g| g.expr(cx.inn()));
            self.tok("]");
            json!({"Expr": e})
        } else {
            self.tok(".");
            let n = self.any_name();
            json!({"Ident": n})
        };
        let s = self.start(m);
        json!({"Member": {"span": self.sp(s), "object": object, "property": prop}})
    }
    fn tagged(&mut self, m: usize, callee: J, cx: Cx) -> J {
        let t = self.deeper(|g| g.template(cx));
        let s = self.start(m);
        json!({"TaggedTemplate": {"span": self.sp(s), "callee": callee, "template": t}})
    }
    fn args(&mut self, cx: Cx) -> (J, Vec<J>) {
        let m = self.mark();
        self.tok("(");
        let n = if self.depth == 0 { self.ch(2) } else { self.ch(3) };
        let mut v = vec![];
        for i in 0..n {
            let k = if self.one_in(5) {
                self.tok("...");
                "Spread"
            } else {
                "Expr"
            };
            let e = self.deeper(|g| if cx.ye && g.one_in(6) { g.bare_yield() } else { g.assign(cx.inn()) });
            v.push(json!({k: e}));
            if i + 1 < n || self.one_in(6) {
                self.tok(",");
            }
        }
        self.tok(")");
        let s = self.start(m);
        (self.sp(s), v)
    }
    fn call_step(&mut self, m: usize, callee: J, cx: Cx) -> J {
        let (asp, args) = self.args(cx);
        let s = self.start(m);
        json!({"Call": {"span": self.sp(s), "callee": callee, "arguments_span": asp, "arguments": args}})
    }
    /// Member accesses, calls and tagged templates behind `e`, which begins at mark `m`.
    fn suffixes(&mut self, m: usize, e: J, cx: Cx, n: usize) -> J {
        let mut e = e;
        let k = self.ch(n + 1);
        for _ in 0..k {
            e = match self.ch(5) {
                0 | 1 => self.call_step(m, json!({"Expr": e}), cx),
                2 if self.depth > 0 => self.tagged(m, e, cx),
                _ => self.member_step(m, json!({"Expr": e}), cx),
            };
        }
        e
    }
    fn optional_chain(&mut self, m: usize, e: J, cx: Cx) -> J {
        let mut e = e;
        let n = 1 + self.ch(3);
        for i in 0..n {
            let opt = i == 0 || self.one_in(3);
            if opt {
                self.tok("?.");
                self.last = K::Punct;
            }
            match self.ch(3) {
                0 => {
                    let (asp, args) = self.args(cx);
                    let s = self.start(m);
                    e = json!({"OptionalCall": {"span": self.sp(s), "callee": e, "arguments_span": asp, "arguments": args, "optional": opt}});
                }
                k => {
                    let prop = if k == 1 {
                        self.tok("[");
                        let x = self.deeper(|g| g.expr(cx.inn()));
                        self.tok("]");
                        json!({"Expr": x})
                    } else {
                        if !opt {
                            self.tok(".");
                        }
                        let n = self.any_name();
                        json!({"Ident": n})
                    };
                    let s = self.start(m);
                    e = json!({"OptionalMember": {"span": self.sp(s), "object": e, "property": prop, "optional": opt}});
                }
            }
        }
        e
    }
    fn lhs(&mut self, cx: Cx) -> J {
        let m = self.mark();
        if self.depth == 0 {
            return self.primary(cx);
        }
        let plain = |g: &mut Self| g.one_in(2);
        if cx.sup && self.one_in(3) {
            self.tok("super");
            let c = self.call_step(m, json!("Super"), cx);
            return self.suffixes(m, c, cx, 1);
        }
        if self.one_in(25) {
            self.tok("import");
            let am = self.mark();
            self.tok("(");
            let e = self.deeper(|g| g.assign(cx.inn()));
            self.tok(")");
            let s = self.start(am);
            let asp = self.sp(s);
            let s = self.start(m);
            let c = json!({"Call": {"span": self.sp(s), "callee": "Import", "arguments_span": asp, "arguments": [{"Expr": e}]}});
            return self.suffixes(m, c, cx, 1);
        }
        let base = match self.ch(12) {
            0 => self.new_(cx),
            1 if cx.meth => {
                let s = self.tok("super");
                let sup = json!({"Super": {"span": self.sp(s)}});
                self.member_step(m, sup, cx)
            }
            2 if cx.ret && self.one_in(3) => {
                let meta = self.named("new");
                self.tok(".");
                let p = self.named("target");
                let s = self.start(m);
                json!({"MetaProperty": {"span": self.sp(s), "meta": meta, "property": p}})
            }
            _ => self.primary(cx),
        };
        if plain(self) {
            return base;
        }
        let e = self.deeper(|g| g.suffixes(m, base, cx, 2));
        if self.one_in(8) {
            return self.deeper(|g| g.optional_chain(m, e, cx));
        }
        e
    }
    /// `new` with arguments
    fn new_(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("new");
        let cm = self.mark();
        let mut callee = if self.one_in(6) { self.new_(cx) } else { self.simple_base(cx) };
        for _ in 0..self.ch(3) {
            callee = if self.depth > 0 && self.one_in(5) { self.tagged(cm, callee, cx) } else { self.member_step(cm, json!({"Expr": callee}), cx) };
        }
        let (asp, args) = self.args(cx);
        let s = self.start(m);
        json!({"New": {"span": self.sp(s), "callee": callee, "arguments_span": asp, "arguments": args}})
    }
    fn primary(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let lead = self.lead;
        let safe = self.safe;
        let n = if self.depth == 0 { 9 } else { 18 };
        match self.ch(n) {
            0 => {
                self.tok("this");
                let s = self.start(m);
                json!({"This": {"span": self.sp(s)}})
            }
            1 => {
                let (t, l) = self.r.pick(&[("null", json!("Null")), ("true", json!({"Boolean": true})), ("false", json!({"Boolean": false}))]).clone();
                self.tok(t);
                let s = self.start(m);
                self.literal(s, l)
            }
            2 | 3 if !safe => {
                let n = self.number();
                let s = self.start(m);
                self.literal(s, json!({"Number": n}))
            }
            4 if !lead => {
                let v = self.lit_string();
                let s = self.start(m);
                self.literal(s, json!({"String": v}))
            }
            9 if !safe => {
                const RX: &[&str] = &["/a/", "/a/g", "/[/]/i", "/=x/", "/\\//", "/(a|b)*/gi", "/ /"];
                let t = *self.r.pick(RX);
                self.rx += 1;
                self.tok(t);
                let s = self.start(m);
                self.literal(s, json!({"Regexp": t}))
            }
            10 if !safe => {
                let t = self.deeper(|g| g.template(cx));
                let s = self.start(m);
                self.literal(s, json!({"Template": t}))
            }
            11 if !safe => {
                let l = self.deeper(|g| g.array(cx));
                let s = self.start(m);
                self.literal(s, l)
            }
            12 | 13 if !lead => {
                let l = self.deeper(|g| g.object(cx));
                let s = self.start(m);
                self.literal(s, l)
            }
            14 if !lead => self.deeper(|g| g.function_expr(cx)),
            15 if !lead => self.deeper(|g| g.class_expr(cx)),
            16 if !safe => self.paren(cx),
            _ => {
                let id = self.ident(cx);
                json!({"IdentRef": id})
            }
        }
    }
    fn array(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        self.tok("[");
        let mut v = vec![];
        let n = self.ch(4);
        for i in 0..n {
            if self.one_in(6) {
                self.tok(",");
                v.push(json!("Elision"));
                continue;
            }
            let k = if self.one_in(6) {
                self.tok("...");
                "Spread"
            } else {
                "Expr"
            };
            let e = if cx.ye && self.one_in(8) { self.bare_yield() } else { self.assign(cx) };
            v.push(json!({k: e}));
            if i + 1 < n || self.one_in(5) {
                self.tok(",");
            }
        }
        self.tok("]");
        json!({"Array": {"elements": v}})
    }
    fn prop_name(&mut self, cx: Cx) -> J {
        match self.ch(7) {
            0 => {
                let s = self.lit_string();
                json!({"String": s})
            }
            1 => {
                let n = self.number();
                json!({"Number": n})
            }
            2 if self.depth > 0 => {
                self.tok("[");
                let e = self.deeper(|g| g.assign(cx.inn()));
                self.tok("]");
                json!({"Computed": e})
            }
            _ => {
                let n = self.any_name();
                json!({"Ident": n})
            }
        }
    }
    fn object(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        self.tok("{");
        let mut v = vec![];
        let n = self.ch(4);
        for i in 0..n {
            let pm = self.mark();
            let p = match self.ch(6) {
                0 | 1 => {
                    let id = self.shorthand(cx);
                    json!({"IdentRef": id})
                }
                2 => {
                    self.tok("...");
                    let e = self.assign(cx);
                    json!({"Spread": e})
                }
                3 => {
                    let md = self.method(cx, false, false);
                    json!({"Method": md})
                }
                _ => {
                    let name = self.prop_name(cx);
                    self.tok(":");
                    let e = if cx.ye && self.one_in(8) { self.bare_yield() } else { self.assign(cx) };
                    let s = self.start(pm);
                    json!({"Named": {"span": self.sp(s), "name": name, "value": e}})
                }
            };
            v.push(p);
            if i + 1 < n || self.one_in(5) {
                self.tok(",");
            }
        }
        self.tok("}");
        json!({"Object": {"props": v}})
    }
    /// A method of an object literal or a class.  Its span begins at its name or modifier, not at `static`.
    fn method(&mut self, cx: Cx, class: bool, has_super: bool) -> J {
        let is_static = class && self.one_in(4);
        if is_static {
            self.tok("static");
        }
        let m = self.mark();
        let (mut gen, mut asy, mut kind) = (cx.y, cx.a, "Method");
        let (mut ye, mut ae) = (false, false);
        let mut plain = false;
        match self.ch(8) {
            0 => {
                self.tok("*");
                (gen, asy, ye) = (true, false, true);
            }
            1 => {
                self.tok("async");
                self.no_nl = true;
                gen = self.one_in(2);
                if gen {
                    self.tok("*");
                }
                (asy, ye, ae) = (true, gen, true);
            }
            2 => {
                self.tok("get");
                kind = "Get";
            }
            3 => {
                self.tok("set");
                kind = "Set";
            }
            _ => plain = true,
        }
        let mut ctor = false;
        let name = if plain && class && self.one_in(3) {
            ctor = !is_static;
            let n = self.named("constructor");
            json!({"Ident": n})
        } else if plain && self.one_in(4) {
            // words that also begin other kinds of methods
            let w = *self.r.pick(&["get", "set", "async", "static"]);
            let n = self.named(w);
            json!({"Ident": n})
        } else if plain {
            self.prop_name(Cx { sup: false, ..cx.still() })
        } else {
            self.prop_name(Cx { sup: false, ..cx.still() })
        };
        let sup = has_super && ctor;
        let bx = Cx { in_: true, y: gen, a: asy, ye, ae, yi: !gen && !cx.y && !asy, ai: !asy && !cx.a, strict: cx.strict, ret: true, meth: true, sup };
        let (params, simple) = match kind {
            "Get" => {
                let m = self.mark();
                self.tok("(");
                self.tok(")");
                let s = self.start(m);
                (json!({"span": self.sp(s), "bindings": [], "rest": J::Null}), true)
            }
            "Set" => self.params(Cx { y: false, ..bx.still() }, Some(1), true),
            _ => self.params(Cx { y: false, ..bx.still() }, None, true),
        };
        let body = self.body(bx, simple);
        let s = self.start(m);
        json!({"span": self.sp(s), "name": name, "kind": kind, "parameters": params, "body": body, "generator": gen, "asynchronous": asy, "is_static": is_static})
    }
    /// Formal parameters and whether they are simple.  `distinct`: no name occurs twice.
    fn params(&mut self, cx: Cx, exact: Option<usize>, distinct: bool) -> (J, bool) {
        let cx = cx.inn();
        let m = self.mark();
        self.tok("(");
        let n = exact.unwrap_or_else(|| self.r.below(4));
        let rest = exact.is_none() && self.one_in(6);
        let mut v = vec![];
        let mut simple = !rest;
        const P: &[&str] = &["p", "q", "r", "s"];
        for i in 0..n {
            let bm = self.mark();
            let pat = if self.depth > 0 && self.one_in(4) {
                simple = false;
                self.deeper(|g| g.binding_pattern(cx))
            } else {
                let id = if distinct { self.named(P[i]) } else { self.binding_ident(cx) };
                json!({"Ident": id})
            };
            let init = self.opt_init(cx);
            if !init.is_null() {
                simple = false;
            }
            let s = self.start(bm);
            v.push(json!({"span": self.sp(s), "pattern": pat, "initializer": init}));
            if i + 1 < n || rest || (self.trailing && self.one_in(5)) {
                self.tok(",");
            }
        }
        let mut r = J::Null;
        if rest {
            self.tok("...");
            r = if self.depth > 0 && self.one_in(3) {
                self.deeper(|g| g.binding_pattern(cx))
            } else {
                let id = self.named("rest");
                json!({"Ident": id})
            };
        }
        self.tok(")");
        let s = self.start(m);
        (json!({"span": self.sp(s), "bindings": v, "rest": r}), simple)
    }
    fn binding_ident(&mut self, cx: Cx) -> J {
        loop {
            let n = self.ident_name(cx);
            if cx.strict && (n == "eval" || n == "arguments") {
                continue;
            }
            return self.named(n);
        }
    }
    fn binding_pattern(&mut self, cx: Cx) -> J {
        if self.one_in(2) {
            self.array_binding(cx)
        } else {
            self.object_binding(cx)
        }
    }
    fn binding(&mut self, cx: Cx) -> J {
        if self.depth > 0 && self.one_in(4) {
            self.deeper(|g| g.binding_pattern(cx))
        } else {
            let id = self.binding_ident(cx);
            json!({"Ident": id})
        }
    }
    fn binding_element(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let p = self.binding(cx);
        let init = self.opt_init(cx);
        let s = self.start(m);
        json!({"span": self.sp(s), "pattern": p, "initializer": init})
    }
    fn array_binding(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        let m = self.mark();
        self.tok("[");
        let mut els = vec![];
        let n = self.ch(4);
        let rest = self.one_in(5);
        for i in 0..n {
            if self.one_in(5) {
                self.tok(",");
                els.push(J::Null);
                continue;
            }
            els.push(self.binding_element(cx));
            if i + 1 < n || rest || self.one_in(4) {
                self.tok(",");
            }
        }
        let mut r = J::Null;
        if rest {
            self.tok("...");
            r = self.binding(cx);
        }
        self.tok("]");
        let s = self.start(m);
        json!({"Array": {"span": self.sp(s), "elements": els, "rest": r}})
    }
    fn object_binding(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        let m = self.mark();
        self.tok("{");
        let mut props = vec![];
        let n = self.ch(4);
        let rest = self.one_in(5);
        for i in 0..n {
            let pm = self.mark();
            if self.one_in(2) {
                let id = self.binding_ident(cx);
                let init = self.opt_init(cx);
                let s = self.start(pm);
                props.push(json!({"Single": {"span": self.sp(s), "ident": id, "initializer": init}}));
            } else {
                let name = self.prop_name(cx);
                self.tok(":");
                let b = self.binding_element(cx);
                let s = self.start(pm);
                props.push(json!({"Named": {"span": self.sp(s), "property": name, "binding": b}}));
            }
            if i + 1 < n || rest || self.one_in(4) {
                self.tok(",");
            }
        }
        let mut r = J::Null;
        if rest {
            self.tok("...");
            let id = self.binding_ident(cx);
            r = json!({"Ident": id});
        }
        self.tok("}");
        let s = self.start(m);
        json!({"Object": {"span": self.sp(s), "props": props, "rest": r}})
    }
    fn arrow(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let asy = self.one_in(3) && !self.lead;
        let ident = self.safe || self.one_in(2);
        if asy {
            self.tok("async");
            self.no_nl = true;
        }
        // the parameters are read in the enclosing context first, as an expression
        let px = cx.still();
        let mut simple = true;
        let (bp, params) = if ident {
            let m = self.mark();
            let id = self.binding_ident(px);
            let s = self.start(m);
            let sp = self.sp(s);
            (true, json!({"span": sp, "bindings": [{"span": sp, "pattern": {"Ident": id}, "initializer": J::Null}], "rest": J::Null}))
        } else {
            // no trailing comma; an async head may not hold an initialised shorthand (known findings)
            let save = std::mem::replace(&mut self.trailing, false);
            let d = self.depth;
            if asy {
                self.depth = 0;
            }
            let (p, sm) = self.params(px, None, true);
            simple = sm;
            self.depth = d;
            self.trailing = save;
            (false, p)
        };
        self.no_nl = true;
        self.tok("=>");
        let bx = Cx { in_: cx.in_, y: false, a: asy, ye: false, ae: asy, yi: true, ai: !asy, strict: cx.strict, ret: false, meth: cx.meth, sup: cx.sup };
        let body = if self.one_in(3) {
            let b = self.body(bx, simple);
            json!({"Body": b})
        } else {
            self.lead = true;
            let e = self.assign(bx);
            json!({"Expr": e})
        };
        let s = self.start(m);
        json!({"ArrowFunction": {"span": self.sp(s), "asynchronous": asy, "binding_parameter": bp, "parameters": params, "body": body}})
    }
    fn fn_cx(&self, cx: Cx, gen: bool, asy: bool) -> Cx {
        Cx { in_: true, y: gen, a: asy, ye: gen, ae: asy, yi: !gen, ai: !asy, strict: cx.strict, ret: true, meth: false, sup: false }
    }
    fn function_expr(&mut self, cx: Cx) -> J {
        let m = self.mark();
        let asy = self.one_in(3);
        if asy {
            self.tok("async");
            self.no_nl = true;
        }
        self.tok("function");
        let gen = self.one_in(3);
        if gen {
            self.tok("*");
        }
        let fx = self.fn_cx(cx, gen, asy);
        let id = if self.one_in(2) { self.binding_ident(fx.still()) } else { J::Null };
        let (params, simple) = self.params(fx.still(), None, false);
        let body = self.body(fx, simple);
        let s = self.start(m);
        json!({"Function": {"span": self.sp(s), "asynchronous": asy, "generator": gen, "identifier": id, "parameters": params, "body": body}})
    }
    fn class_body(&mut self, cx: Cx, has_super: bool) -> J {
        self.tok("{");
        let n = self.ch(3);
        let mut v = vec![];
        for _ in 0..n {
            if self.one_in(4) {
                self.tok(";");
            }
            let md = self.deeper(|g| g.method(cx, true, has_super));
            v.push(json!({"Method": md}));
        }
        self.tok("}");
        json!(v)
    }
    fn class_expr(&mut self, cx: Cx) -> J {
        let cx = Cx { strict: true, ..cx };
        let m = self.mark();
        self.tok("class");
        let id = if self.one_in(2) { self.binding_ident(cx.still()) } else { J::Null };
        let sup = self.heritage(cx);
        let body = self.class_body(cx, !sup.is_null());
        let s = self.start(m);
        json!({"Class": {"span": self.sp(s), "identifier": id, "super_class": sup, "body": body}})
    }
    fn heritage(&mut self, cx: Cx) -> J {
        if self.one_in(2) {
            self.tok("extends");
            self.deeper(|g| {
                let m = g.mark();
                let b = g.simple_base(cx);
                g.suffixes(m, b, cx, 1)
            })
        } else {
            J::Null
        }
    }

    // ---- bodies and statements ---------------------------------------------------------------------------------
    /// Directives and statements up to the end of the body.
    fn stmts(&mut self, cx: Cx, max: usize, simple: bool) -> (Vec<J>, Vec<J>, Cx) {
        let mut dirs = vec![];
        let mut cx = cx;
        while self.one_in(6) {
            let strict = simple && self.one_in(3);
            let d = if strict {
                let d = if self.one_in(2) { '\'' } else { '"' };
                self.tok(&format!("{d}use strict{d}"));
                json!({"value": "use strict", "delimiter": d.to_string()})
            } else {
                self.lit_string()
            };
            if strict {
                cx.strict = true;
            }
            dirs.push(d);
            self.semi();
        }
        let mut v = vec![];
        let n = self.ch(max + 1);
        for i in 0..n {
            if i == 0 && !self.safe && self.one_in(8) {
                // begins like a directive, is none
                let m = self.mark();
                let l = if self.one_in(3) {
                    self.tok("'use strict'");
                    json!({"value": "use strict", "delimiter": "'"})
                } else {
                    self.lit_string()
                };
                let s = self.start(m);
                let l = self.literal(s, json!({"String": l}));
                let e = if self.one_in(2) {
                    self.member_step(m, json!({"Expr": l}), cx)
                } else {
                    self.tok("+");
                    let r = self.deeper(|g| g.unary(cx.inn()));
                    json!({"Binary": {"span": self.sp(s), "operator": "Plus", "left": l, "right": r}})
                };
                self.semi();
                v.push(json!({"Expr": {"span": self.sp(s), "expr": e}}));
                continue;
            }
            v.push(self.item(cx));
        }
        (dirs, v, cx)
    }
    fn body(&mut self, cx: Cx, simple: bool) -> J {
        let m = self.mark();
        self.tok("{");
        let max = if self.depth == 0 { 0 } else { 2 };
        let (d, s, _) = self.deeper(|g| g.stmts(Cx { ret: true, in_: true, ..cx }, max, simple));
        self.close();
        let st = self.start(m);
        json!({"span": self.sp(st), "directives": d, "statements": s})
    }
    fn close(&mut self) {
        // a line break is not needed before `}`
        self.tok("}");
    }
    /// Ends a statement: with `;`, or with a line break or a closing brace to come.
    fn semi(&mut self) {
        if self.one_in(3) {
            self.need_nl = true;
            self.safe = true;
        } else {
            self.tok(";");
        }
    }
    /// Declaration or statement.
    pub fn item(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        match self.ch(8) {
            0 => self.deeper(|g| g.function_decl(cx, false)),
            1 => self.deeper(|g| g.class_decl(cx, false)),
            2 => {
                let k = *self.r.pick(&["let", "const"]);
                self.variable(cx, k)
            }
            _ => self.stmt(cx),
        }
    }
    fn variable(&mut self, cx: Cx, k: &str) -> J {
        let m = self.mark();
        let mut v = self.declarations(cx, k);
        self.semi();
        let s = self.start(m);
        v["span"] = self.sp(s);
        json!({"Variable": v})
    }
    fn declarations(&mut self, cx: Cx, k: &str) -> J {
        let m = self.mark();
        self.tok(k);
        let n = 1 + self.ch(2);
        let mut v = vec![];
        for i in 0..n {
            if i > 0 {
                self.tok(",");
            }
            let dm = self.mark();
            let p = self.binding(cx);
            let must = p.get("Ident").is_none();
            let init = if must || self.one_in(2) {
                self.tok("=");
                self.deeper(|g| g.assign(cx))
            } else {
                J::Null
            };
            let s = self.start(dm);
            v.push(json!({"span": self.sp(s), "pattern": p, "initializer": init}));
        }
        let s = self.start(m);
        let kind = match k {
            "let" => "Let",
            "const" => "Const",
            _ => "Var",
        };
        json!({"span": self.sp(s), "kind": kind, "declarations": v})
    }
    fn function_decl(&mut self, cx: Cx, anon: bool) -> J {
        let m = self.mark();
        let asy = self.one_in(3);
        if asy {
            self.tok("async");
            self.no_nl = true;
        }
        self.tok("function");
        let gen = self.one_in(3);
        if gen {
            self.tok("*");
        }
        let fx = self.fn_cx(cx, gen, asy);
        let id = if anon { J::Null } else { self.binding_ident(cx.still()) };
        let pm = self.mark();
        let (params, simple) = self.params(fx.still(), None, false);
        let id = if anon {
            let p = self.start(pm);
            json!({"span": Self::span2(p, p), "name": ""})
        } else {
            id
        };
        let body = self.body(fx, simple);
        let s = self.start(m);
        json!({"FunctionDecl": {"span": self.sp(s), "asynchronous": asy, "generator": gen, "identifier": id, "parameters": params, "body": body}})
    }
    fn class_decl(&mut self, cx: Cx, anon: bool) -> J {
        let cx = Cx { strict: true, ..cx };
        let m = self.mark();
        self.tok("class");
        let id = if anon { J::Null } else { self.binding_ident(cx.still()) };
        // an anonymous class is recognised by its body: no heritage
        let sup = if anon { J::Null } else { self.heritage(cx) };
        let bm = self.mark();
        let body = self.class_body(cx, !sup.is_null());
        let id = if anon {
            let p = self.start(bm);
            json!({"span": Self::span2(p, p), "name": ""})
        } else {
            id
        };
        let s = self.start(m);
        json!({"ClassDecl": {"span": self.sp(s), "identifier": id, "super_class": sup, "body": body}})
    }
    fn block(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("{");
        let n = if self.depth == 0 { 0 } else { self.ch(3) };
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.deeper(|g| g.item(cx)));
        }
        self.close();
        let s = self.start(m);
        json!({"span": self.sp(s), "statements": v})
    }
    fn cond_head(&mut self, cx: Cx) -> J {
        self.tok("(");
        let e = self.deeper(|g| g.expr(cx.inn()));
        self.tok(")");
        e
    }
    fn sub_stmt(&mut self, cx: Cx) -> J {
        self.deeper(|g| g.stmt(cx))
    }
    fn expr_stmt(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.lead = true;
        let e = if cx.ye && self.one_in(4) { self.bare_yield() } else { self.expr(cx.inn()) };
        self.semi();
        let s = self.start(m);
        json!({"Expr": {"span": self.sp(s), "expr": e}})
    }
    pub fn stmt(&mut self, cx: Cx) -> J {
        let cx = cx.inn();
        let m = self.mark();
        if self.depth == 0 {
            return match self.ch(4) {
                0 if !self.safe => {
                    let s = self.tok(";");
                    json!({"Empty": {"span": self.sp(s)}})
                }
                1 => {
                    self.tok("debugger");
                    self.semi();
                    let s = self.start(m);
                    json!({"Debugger": {"span": self.sp(s)}})
                }
                _ => self.expr_stmt(cx),
            };
        }
        match self.ch(26) {
            0 => {
                let b = self.block(cx);
                json!({"Block": b})
            }
            1 if !self.safe => {
                let s = self.tok(";");
                json!({"Empty": {"span": self.sp(s)}})
            }
            2 => {
                let (w, n) = *self.r.pick(&[("break", "Break"), ("continue", "Continue")]);
                self.tok(w);
                let l = if self.one_in(2) {
                    self.no_nl = true;
                    self.ident(cx)
                } else {
                    J::Null
                };
                self.semi();
                let s = self.start(m);
                json!({n: {"span": self.sp(s), "label": l}})
            }
            3 if cx.ret => {
                self.tok("return");
                let a = if self.one_in(2) {
                    self.no_nl = true;
                    self.deeper(|g| g.expr(cx))
                } else {
                    J::Null
                };
                self.semi();
                let s = self.start(m);
                json!({"Return": {"span": self.sp(s), "argument": a}})
            }
            4 => {
                self.tok("throw");
                self.no_nl = true;
                let a = self.deeper(|g| g.expr(cx));
                self.semi();
                let s = self.start(m);
                json!({"Throw": {"span": self.sp(s), "argument": a}})
            }
            5 | 6 => {
                self.tok("if");
                let c = self.cond_head(cx);
                let els = self.one_in(2);
                let a = if els {
                    if self.one_in(2) {
                        let b = self.deeper(|g| g.block(cx));
                        json!({"Block": b})
                    } else {
                        self.deeper(|g| g.expr_stmt(cx))
                    }
                } else {
                    self.sub_stmt(cx)
                };
                // without `else` the statement may be the consequent of an enclosing if: that one is a block or expression
                let b = if els {
                    self.tok("else");
                    self.sub_stmt(cx)
                } else {
                    J::Null
                };
                let s = self.start(m);
                json!({"If": {"span": self.sp(s), "condition": c, "consequent": a, "alternate": b}})
            }
            7 => {
                self.tok("while");
                let t = self.cond_head(cx);
                let b = self.sub_stmt(cx);
                let s = self.start(m);
                json!({"While": {"span": self.sp(s), "test": t, "body": b}})
            }
            8 => {
                self.tok("do");
                let b = self.sub_stmt(cx);
                self.tok("while");
                let t = self.cond_head(cx);
                if self.one_in(2) {
                    self.tok(";");
                } else {
                    // the next statement must not be an empty one
                    self.need_nl = true;
                    self.safe = true;
                }
                let s = self.start(m);
                json!({"DoWhile": {"span": self.sp(s), "body": b, "test": t}})
            }
            9 if !cx.strict => {
                self.tok("with");
                let o = self.cond_head(cx);
                let b = self.sub_stmt(cx);
                let s = self.start(m);
                json!({"With": {"span": self.sp(s), "object": o, "body": b}})
            }
            10 => {
                self.tok("switch");
                let d = self.cond_head(cx);
                self.tok("{");
                let mut cases = vec![];
                let n = self.ch(3);
                let mut dflt = false;
                for _ in 0..n {
                    let cm = self.mark();
                    let t = if !dflt && self.one_in(3) {
                        dflt = true;
                        self.tok("default");
                        J::Null
                    } else {
                        self.tok("case");
                        self.deeper(|g| g.expr(cx))
                    };
                    self.tok(":");
                    let k = self.ch(3);
                    let mut v = vec![];
                    for _ in 0..k {
                        v.push(self.deeper(|g| g.item(cx)));
                    }
                    let s = self.start(cm);
                    cases.push(json!({"span": self.sp(s), "test": t, "consequent": v}));
                }
                self.tok("}");
                let s = self.start(m);
                json!({"Switch": {"span": self.sp(s), "discriminant": d, "cases": cases}})
            }
            11 => {
                self.tok("try");
                let b = self.deeper(|g| g.block(cx));
                let (c, f) = *self.r.pick(&[(true, false), (false, true), (true, true)]);
                let h = if c {
                    let cm = self.mark();
                    self.tok("catch");
                    let p = if self.one_in(2) {
                        self.tok("(");
                        let p = self.deeper(|g| g.binding(cx));
                        self.tok(")");
                        p
                    } else {
                        J::Null
                    };
                    let b = self.deeper(|g| g.block(cx));
                    let s = self.start(cm);
                    json!({"span": self.sp(s), "parameter": p, "body": b})
                } else {
                    J::Null
                };
                let fin = if f {
                    self.tok("finally");
                    self.deeper(|g| g.block(cx))
                } else {
                    J::Null
                };
                let s = self.start(m);
                json!({"Try": {"span": self.sp(s), "block": b, "handler": h, "finalizer": fin}})
            }
            12 => {
                let l = self.binding_ident(cx);
                self.tok(":");
                let b = self.sub_stmt(cx);
                let s = self.start(m);
                json!({"Labeled": {"span": self.sp(s), "label": l, "body": b}})
            }
            13 | 14 => self.variable(cx, "var"),
            15 | 16 => self.for_(cx),
            17 | 18 => self.for_in_of(cx),
            _ => self.deeper(|g| g.expr_stmt(cx)),
        }
    }
    fn for_(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("for");
        self.tok("(");
        let nx = Cx { in_: false, ..cx };
        let init = match self.ch(3) {
            0 => J::Null,
            1 => {
                let k = *self.r.pick(&["var", "let", "const"]);
                let d = self.deeper(|g| g.declarations(nx, k));
                json!({"Declaration": d})
            }
            _ => {
                let e = self.deeper(|g| g.expr(nx));
                json!({"Expr": e})
            }
        };
        self.tok(";");
        let t = if self.one_in(2) { self.deeper(|g| g.expr(cx)) } else { J::Null };
        self.tok(";");
        let u = if self.one_in(2) { self.deeper(|g| g.expr(cx)) } else { J::Null };
        self.tok(")");
        let b = self.sub_stmt(cx);
        let s = self.start(m);
        json!({"For": {"span": self.sp(s), "init": init, "test": t, "update": u, "body": b}})
    }
    fn for_in_of(&mut self, cx: Cx) -> J {
        let m = self.mark();
        self.tok("for");
        let of = self.one_in(2);
        let asy = cx.ae && of && self.one_in(2);
        if asy {
            self.tok("await");
        }
        self.tok("(");
        let nx = Cx { in_: false, ..cx };
        let left = match self.ch(4) {
            0 | 1 => {
                let dm = self.mark();
                let (k, n) = *self.r.pick(&[("var", "Var"), ("let", "Let"), ("const", "Const")]);
                self.tok(k);
                let b = self.deeper(|g| g.binding(nx));
                let s = self.start(dm);
                json!({"Declaration": {"span": self.sp(s), "kind": n, "binding": b}})
            }
            2 => {
                let p = self.deeper(|g| g.pattern(nx));
                json!({"AssignmentPattern": p})
            }
            _ => {
                let t = self.deeper(|g| g.target(nx));
                json!({"Expr": t})
            }
        };
        self.tok(if of { "of" } else { "in" });
        let r = self.deeper(|g| if of { g.assign(cx) } else { g.expr(cx) });
        self.tok(")");
        let b = self.sub_stmt(cx);
        let s = self.start(m);
        let mut o = json!({"span": self.sp(s), "left": left, "right": r, "body": b});
        if of {
            o["asynchronous"] = json!(asy);
            json!({"ForOf": o})
        } else {
            json!({"ForIn": o})
        }
    }

    // ---- modules -----------------------------------------------------------------------------------------------
    fn module_cx() -> Cx {
        Cx { strict: true, yi: false, ai: false, ..Cx::top() }
    }
    fn import(&mut self) -> J {
        let cx = Self::module_cx();
        let m = self.mark();
        self.tok("import");
        let (mut d, mut ns, mut named) = (J::Null, J::Null, J::Null);
        let form = self.ch(6);
        if form > 0 {
            if form & 1 == 1 {
                d = self.binding_ident(cx);
                if form > 1 {
                    self.tok(",");
                }
            }
            match form {
                2 | 3 => {
                    self.tok("*");
                    self.tok("as");
                    ns = self.binding_ident(cx);
                }
                4 | 5 => {
                    self.tok("{");
                    let n = self.ch(3);
                    let mut v = vec![];
                    for i in 0..n {
                        let im = self.mark();
                        let al = self.one_in(2);
                        let name = if al { self.any_name() } else { self.binding_ident(cx) };
                        let alias = if al {
                            self.tok("as");
                            self.binding_ident(cx)
                        } else {
                            J::Null
                        };
                        let s = self.start(im);
                        v.push(json!({"span": self.sp(s), "name": name, "alias": alias}));
                        if i + 1 < n || self.one_in(4) {
                            self.tok(",");
                        }
                    }
                    self.tok("}");
                    named = json!(v);
                }
                _ => {}
            }
            self.tok("from");
        }
        let from = self.lit_string();
        self.semi();
        let s = self.start(m);
        json!({"ImportDecl": {"span": self.sp(s), "default_binding": d, "namespace_binding": ns, "named_imports": named, "from": from}})
    }
    fn export(&mut self) -> J {
        let cx = Self::module_cx();
        let m = self.mark();
        self.tok("export");
        match self.ch(7) {
            0 => {
                let d = self.item_decl(cx);
                let s = self.start(m);
                json!({"ExportDecl": {"Decl": {"span": self.sp(s), "decl": d}}})
            }
            1 => {
                let d = self.variable(cx, "var");
                let s = self.start(m);
                json!({"ExportDecl": {"Decl": {"span": self.sp(s), "decl": d}}})
            }
            2 => {
                self.tok("default");
                let anon = self.one_in(2);
                let d = self.deeper(|g| if g.one_in(2) { g.function_decl(cx, anon) } else { g.class_decl(cx, anon) });
                let s = self.start(m);
                json!({"ExportDecl": {"DefaultDecl": {"span": self.sp(s), "decl": d}}})
            }
            3 => {
                self.tok("default");
                self.lead = true;
                let e = self.deeper(|g| g.assign(cx));
                self.semi();
                let s = self.start(m);
                json!({"ExportDecl": {"DefaultExpr": {"span": self.sp(s), "expr": e}}})
            }
            4 => {
                self.tok("*");
                let a = if self.one_in(2) {
                    self.tok("as");
                    self.any_name()
                } else {
                    J::Null
                };
                self.tok("from");
                let f = self.lit_string();
                self.semi();
                let s = self.start(m);
                json!({"ExportDecl": {"Namespace": {"span": self.sp(s), "alias": a, "from": f}}})
            }
            _ => {
                self.tok("{");
                let n = self.ch(3);
                let has_from = self.one_in(2);
                let mut v = vec![];
                for i in 0..n {
                    let im = self.mark();
                    let a = if has_from { self.any_name() } else { self.binding_ident(cx) };
                    let (name, alias_of) = if self.one_in(2) {
                        self.tok("as");
                        (self.any_name(), a)
                    } else {
                        (a, J::Null)
                    };
                    let s = self.start(im);
                    v.push(json!({"span": self.sp(s), "name": name, "alias_of": alias_of}));
                    if i + 1 < n || self.one_in(4) {
                        self.tok(",");
                    }
                }
                self.tok("}");
                let f = if has_from {
                    self.tok("from");
                    self.lit_string()
                } else {
                    J::Null
                };
                if has_from {
                    self.semi();
                } else {
                    // a line break would not end it before `from`
                    self.tok(";");
                }
                let s = self.start(m);
                json!({"ExportDecl": {"Named": {"span": self.sp(s), "named_exports": v, "from": f}}})
            }
        }
    }
    fn item_decl(&mut self, cx: Cx) -> J {
        match self.ch(3) {
            0 => self.deeper(|g| g.function_decl(cx, false)),
            1 => self.deeper(|g| g.class_decl(cx, false)),
            _ => {
                let k = *self.r.pick(&["let", "const"]);
                self.variable(cx, k)
            }
        }
    }
    /// A whole program and the tree it must parse to.
    pub fn program(&mut self) -> J {
        self.module = self.one_in(4);
        let n = 1 + self.ch(3);
        let top = if self.module { Self::module_cx() } else { Cx::top() };
        let (d, mut v, cx) = self.stmts(top, n, true);
        if self.module {
            for _ in 0..1 + self.ch(2) {
                let s = if self.one_in(2) { self.import() } else { self.export() };
                v.push(s);
            }
        }
        if self.one_in(3) {
            v.push(self.item(cx));
        }
        if self.tokens.is_empty() {
            return self.empty_program();
        }
        let s = self.start(0);
        let tail = if self.ws > 0 && self.one_in(2) { *self.r.pick(&[" ", "\n", "// c", "/* c */", "\n\n"]) } else { "" };
        let span = self.sp(s);
        self.out.push_str(tail);
        let k = if self.module { "Module" } else { "Script" };
        json!({k: {"span": span, "directives": d, "body": v}})
    }
    fn empty_program(&mut self) -> J {
        let k = if self.module { "Module" } else { "Script" };
        json!({k: {"span": "0:0", "directives": [], "body": []}})
    }
}
