//! Modes over arbitrary texts: the token reader under look-ahead, rewinding and re-reading, and the parser on broken
//! programs (no panic, errors that point into the text, diagnostics that name the right place).
use crate::lexref::{RErr, RState, RTok, Ref, DEFAULT};
use crate::prog::Gen;
use crate::rng::Rng;
use crate::util::guard;
use crate::{Case, Failure, Mode};
use fajt_common::io::PeekReader;
use fajt_lexer::error::ErrorKind;
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{Lexer, LexerState};
use serde_json::{json, Value as J};

// ---- reader ------------------------------------------------------------------------------------------------------
struct Sim {
    inner: Ref,
    base: RState,
    cur: Result<RTok, RErr>,
    next: Result<RTok, RErr>,
    pos: usize,
}
impl Sim {
    fn read(&mut self, st: RState) -> Result<RTok, RErr> {
        self.inner.read(st)
    }
}

/// Runs the operations chosen by `seed` on a reader over `src` and on the reference; the first disagreement.
pub fn run_reader(src: &str, seed: u64, html: bool) -> (Option<String>, usize) {
    let mut r = Rng::new(seed);
    let base = RState { html, ..DEFAULT };
    let mut sim = Sim { inner: Ref::new(src), base, cur: Err(RErr::End), next: Err(RErr::End), pos: 0 };
    sim.cur = sim.read(base);
    sim.next = if sim.cur.is_ok() { sim.read(base) } else { Err(RErr::Bad) };
    let mut lexer = Lexer::new(src).unwrap();
    if !html {
        lexer.set_state(LexerState::default().with_html_comments_allowed(false));
    }
    let mut rd = PeekReader::<Token, _>::new(lexer).unwrap();
    let mut seen: Vec<(RTok, Token)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut ops = 0;
    for _ in 0..60 {
        // state of both
        let check = |w: &Result<RTok, RErr>, g: Result<&Token, &fajt_lexer::error::Error>, what: &str, log: &Vec<String>| -> Option<String> {
            let ctx = || format!("source {src:?}, after {}: {what}", log.join(" "));
            match (w, g) {
                (Ok(w), Ok(g)) => {
                    if w.value != g.value || (w.i, w.j, w.fol) != (g.span.start, g.span.end, g.first_on_line) {
                        return Some(format!("{} is {:?} at {}..{} (first on line: {}), expected {:?} at {}..{} ({})", ctx(), g.value, g.span.start, g.span.end, g.first_on_line, w.value, w.i, w.j, w.fol));
                    }
                    None
                }
                (Err(e), Err(g)) => ((*g.kind() == ErrorKind::EndOfStream) != (*e == RErr::End)).then(|| format!("{} is {g:?}, expected {e:?}", ctx())),
                (Ok(w), Err(g)) => Some(format!("{} is {g:?}, expected {:?}", ctx(), w.value)),
                (Err(e), Ok(g)) => Some(format!("{} is {:?}, expected {e:?}", ctx(), g.value)),
            }
        };
        if let Some(d) = check(&sim.cur, rd.current(), "current", &log) {
            return (Some(d), ops);
        }
        if sim.cur.is_err() {
            // behind an error only rewinding is defined
            if seen.is_empty() || r.one_in(3) {
                break;
            }
        } else if let Some(d) = check(&sim.next, rd.peek(), "peek", &log) {
            return (Some(d), ops);
        }
        ops += 1;
        let op = if sim.cur.is_err() { 0 } else { r.below(8) };
        match op {
            0 | 1 if !seen.is_empty() => {
                let k = if r.one_in(2) { seen.len() - 1 } else { r.below(seen.len()) };
                let (w, g) = seen[k].clone();
                log.push(format!("rewind({})", w.i));
                sim.inner.k = w.i;
                sim.inner.fol = w.fol;
                sim.cur = sim.read(base);
                sim.next = if sim.cur.is_ok() { sim.read(base) } else { Err(RErr::Bad) };
                if let Err(e) = rd.rewind_to(&g) {
                    return (Some(format!("source {src:?}: rewind fails: {e:?}")), ops);
                }
            }
            2 | 3 => {
                let c = sim.cur.as_ref().unwrap();
                let ch = src.as_bytes()[c.i];
                let st = match ch {
                    b'/' => RState { html: true, regex: true, template: false },
                    b'}' => RState { html: true, regex: false, template: true },
                    _ => continue,
                };
                log.push(format!("reread({})", if st.regex { "regex" } else { "template" }));
                sim.inner.k = c.i;
                sim.inner.fol = c.fol;
                sim.cur = sim.read(st);
                sim.next = if sim.cur.is_ok() { sim.read(sim.base) } else { Err(RErr::Bad) };
                if let Err(e) = rd.reread_with_state(if st.regex { LexerState::regex_allowed() } else { LexerState::inside_template() }) {
                    return (Some(format!("source {src:?}: re-reading fails: {e:?}")), ops);
                }
            }
            _ => {
                log.push("consume".to_string());
                let c = std::mem::replace(&mut sim.cur, Err(RErr::End)).unwrap();
                match rd.consume() {
                    Err(e) => return (Some(format!("source {src:?}, after {}: {e:?} instead of {:?}", log.join(" "), c.value)), ops),
                    Ok(g) => {
                        if g.value != c.value || (g.span.start, g.span.end) != (c.i, c.j) {
                            return (Some(format!("source {src:?}, after {}: consumed {:?} at {}, expected {:?} at {}", log.join(" "), g.value, g.span.start, c.value, c.i)), ops);
                        }
                        sim.pos = c.j;
                        if rd.position() != sim.pos {
                            return (Some(format!("source {src:?}, after {}: position {}, expected {}", log.join(" "), rd.position(), sim.pos)), ops);
                        }
                        if !matches!(c.value, TokenValue::TemplateMiddle(_) | TokenValue::TemplateTail(_) | TokenValue::Literal(fajt_ast::Literal::Regexp(_))) {
                            seen.push((c, g));
                        }
                    }
                }
                let n = std::mem::replace(&mut sim.next, Err(RErr::End));
                let bad = n.is_err();
                sim.cur = n;
                sim.next = if bad { Err(RErr::Bad) } else { sim.read(base) };
            }
        }
    }
    (None, ops)
}

const PIECES: &[&str] = &[
    "a", "/", "/=", "}", "{", "`", "`a`", "`${", "${", "(", ")", "\n", "\n", " ", "/* */", "//c\n", "\"s\"", "1", "1.5", "+", "-->x\n", "<!--x\n", "/[/]/g", "/a/", "if", "?.", "...", "=>", "0x1", "'", "@", "/*\n*/", "b", "!=", "`\n${", "}c`", "}d${",
];
pub struct Reader;
impl Mode for Reader {
    fn rule(&self) -> &'static str {
        "a random text of up to 24 pieces (at least 6) and up to 60 random operations consume / rewind to an earlier token / re-read; every current and peeked token and the position are compared with a reference lexer that reads the same text from the same place"
    }
    fn case(&mut self, _n: u64, rng: &mut Rng) -> Option<Case> {
        let mut t = String::new();
        let n = 2 + rng.below(23);
        for _ in 0..n {
            t.push_str(rng.pick(PIECES));
            if rng.one_in(5) {
                t.push(' ');
            }
        }
        let (seed, html) = (rng.next() >> 1, !rng.one_in(5));
        let fail = run_guarded(&t, seed, html).map(|what| Failure { input: json!({"source": t, "ops": seed, "html": html}), what, signature: String::new() });
        Some(Case { key: format!("{seed} {t}"), nontrivial: n >= 6, fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        run_guarded(i["source"].as_str().unwrap(), i["ops"].as_u64().unwrap(), i["html"] == json!(true)).map(|what| Failure { input: i.clone(), what, signature: String::new() })
    }
}
fn run_guarded(t: &str, seed: u64, html: bool) -> Option<String> {
    match guard(|| run_reader(t, seed, html).0) {
        Ok(x) => x,
        Err(p) => Some(p),
    }
}

// ---- broken programs ---------------------------------------------------------------------------------------------
const POOL: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "?.", "...", "=>", "=", "+=", "+", "++", "-", "--", "/", "/=", "*", "**", "<", ">>", "?", "??", "||", "!", "~", "async", "await", "yield", "function", "class", "extends", "new", "super", "import", "export", "default",
    "from", "as", "get", "set", "static", "of", "in", "let", "const", "var", "if", "else", "for", "while", "do", "switch", "case", "try", "catch", "finally", "return", "throw", "break", "continue", "with", "this", "null", "typeof", "delete", "void", "a", "b", "eval", "1", "'s'", "`t`",
    "`${", "/x/", "'use strict'", "@", "#", "\"", "target", "meta", "enum", "debugger", "instanceof", "=> {", "async (", "async a =>", "({", "([", "{...", "for (let", "for await (",
];
const CHARS: &[&str] = &["'", "\"", "`", "\\", "/", "*", "\n", "\r", "{", "}", "(", ")", "$", "<!--", "-->", "/*", "//", "0", "_", ".", " ", "\t", "${"];

pub fn broken(rng: &mut Rng, n: u64) -> (String, bool) {
    if rng.one_in(6) {
        let mut t = String::new();
        for _ in 0..1 + rng.below(14) {
            t.push_str(rng.pick(POOL));
            t.push_str(rng.pick(&[" ", " ", "\n", ""]));
        }
        return (t, rng.one_in(3));
    }
    let mut pr = Rng::new(rng.next());
    let mut g = Gen::new(&mut pr, 1 + (n % 4) as usize);
    g.program();
    let (mut s, module) = (g.out.clone(), g.module);
    let toks = g.tokens.clone();
    for _ in 0..1 + rng.below(3) {
        let pick = |r: &mut Rng| if toks.is_empty() { (0, 0) } else { toks[r.below(toks.len())] };
        let (a, b) = pick(rng);
        if b > s.len() || !s.is_char_boundary(a) || !s.is_char_boundary(b) {
            continue;
        }
        match rng.below(8) {
            0 => s.replace_range(a..b, ""),
            1 => s.replace_range(a..b, rng.pick(POOL)),
            2 => s.insert_str(a, &format!(" {} ", rng.pick(POOL))),
            3 => s.insert_str(b, &format!(" {} ", rng.pick(POOL))),
            4 => {
                let t = s[a..b].to_string();
                s.insert_str(b, &format!(" {t}"));
            }
            5 => {
                let k = rng.below(s.len() + 1);
                s.truncate(k);
            }
            6 => {
                let k = rng.below(s.len() + 1);
                s.insert_str(k, rng.pick(CHARS));
            }
            _ => {
                let (c, d) = pick(rng);
                if b <= c && d <= s.len() {
                    let (x, y) = (s[a..b].to_string(), s[c..d].to_string());
                    s.replace_range(c..d, &x);
                    s.replace_range(a..b, &y);
                }
            }
        }
    }
    (s, if rng.one_in(4) { !module } else { module })
}

/// What the error of a rejected program says, against the text it points into.
fn check_error(src: &str, e: &fajt_parser::error::Error) -> Option<String> {
    let d = format!("{e:?}");
    let at = d.rfind("span: Span { start: ").unwrap();
    let nums: Vec<usize> = d[at..].split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let (a, b) = (nums[0], nums[1]);
    if a > b || b > src.len() {
        return Some(format!("the error points outside the text: {d}"));
    }
    let mut out: Vec<u8> = vec![];
    match guard(|| fajt_parser::error::emitter::ErrorEmitter::new("f.js", src, &mut out).emit_error(e).map_err(|x| x.to_string())) {
        Err(p) => return Some(format!("emitting the diagnostic panics: {p} ({d})")),
        Ok(Err(x)) => return Some(format!("emitting the diagnostic fails: {x} ({d})")),
        Ok(Ok(())) => {}
    }
    let text = String::from_utf8_lossy(&out).to_string();
    let lines: Vec<&str> = text.split('\n').collect();
    let eos = d.contains("kind: EndOfStream");
    if lines[0] != e.to_string() {
        return Some(format!("the diagnostic begins with {:?} instead of the error's text {:?}", lines[0], e.to_string()));
    }
    let head = lines.iter().find(|l| l.starts_with(" --> "));
    let line = src[..a].matches('\n').count() + 1;
    let from = src[..a].rfind('\n').map_or(0, |p| p + 1);
    let want = if (a, b) == (0, 0) { " --> f.js".to_string() } else { format!(" --> f.js:{line}:{}", a - from + 1) };
    if head != Some(&want.as_str()) {
        return Some(format!("the diagnostic names {head:?}, the error is at {want:?} ({d})"));
    }
    if !eos {
        let to = src[b..].find('\n').map_or(src.len(), |p| p + b);
        let body = format!("{line} | {}", src[from..to].replace('\t', "    "));
        let pad = " ".repeat(line.to_string().len() + 1);
        let tabs = src[from..a].matches('\t').count();
        let width = (b - a).max(1);
        let marks = format!("{pad}| {}{} ", " ".repeat(a - from + tabs * 3), "^".repeat(width));
        if !text.contains(&format!("\n{body}\n")) {
            return Some(format!("the diagnostic does not show the line {body:?}: {text:?}"));
        }
        if !text.contains(&format!("\n{marks}")) || text.contains(&format!("\n{}^", marks.trim_end())) {
            return Some(format!("the diagnostic does not mark {a}..{b}: {text:?}"));
        }
    }
    // a rejected token is shown with the text it was read from
    if d.starts_with("Error { kind: UnexpectedToken(") || d.starts_with("Error { kind: ExpectedIdentifier(") {
        let t = &src[a..b];
        if t.is_empty() || t.starts_with([' ', '\n', '\t']) || t.ends_with([' ', '\n', '\t']) {
            return Some(format!("the rejected token spans {t:?}: {d}"));
        }
        for (p, w) in [("Punctuator(", crate::tables::PUNCTS), ("Keyword(", crate::tables::KEYWORDS)] {
            if d.contains(&format!("Token({p}")) && !w.contains(&t) && !t.contains('\\') {
                return Some(format!("the rejected token spans {t:?}: {d}"));
            }
        }
    }
    None
}

pub struct Broken {
    pub error: bool,
}
impl Broken {
    fn run(&self, s: &str, module: bool) -> Option<String> {
        let res = match guard(|| if module { fajt_parser::parse_module(s) } else { fajt_parser::parse_script(s) }) {
            Err(p) => return Some(p),
            Ok(x) => x,
        };
        match res {
            Ok(_) => None,
            Err(e) => self.error.then(|| check_error(s, &e)).flatten(),
        }
    }
}
impl Mode for Broken {
    fn rule(&self) -> &'static str {
        if self.error {
            "a random program with 1 to 3 random token or character mutations, or a random token sequence; the error of a rejected text must point into the text and the diagnostic must name and mark that place (text of at least 8 bytes)"
        } else {
            "a random program with 1 to 3 random token or character mutations, or a random token sequence, parsed without panic (text of at least 8 bytes)"
        }
    }
    fn case(&mut self, n: u64, rng: &mut Rng) -> Option<Case> {
        let (s, module) = broken(rng, n);
        let fail = self.run(&s, module).map(|what| Failure { input: json!({"source": s, "module": module}), what, signature: String::new() });
        Some(Case { nontrivial: s.len() >= 8, key: s, fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        let s = i["source"].as_str().unwrap();
        self.run(s, i["module"] == json!(true)).map(|what| Failure { input: i.clone(), what, signature: String::new() })
    }
}
