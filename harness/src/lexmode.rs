//! The real lexer against the reference lexer, token by token, in randomly chosen lexer states.
use crate::lexref::{Ref, RErr, RState};
use crate::rng::Rng;
use crate::util::guard;
use crate::{Case, Failure, Mode};
use fajt_lexer::error::ErrorKind;
use fajt_lexer::{Lexer, LexerState};
use serde_json::json;

pub const WS: &[&str] = &[
    " ", "\t", "\u{B}", "\u{C}", "\u{A0}", "\u{FEFF}", "\u{1680}", "\u{2000}", "\u{2003}", "\u{200A}", "\u{202F}", "\u{205F}", "\u{3000}", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\u{85}", "\u{180E}", "\u{200B}",
    "\u{1FFF}", " ", "\n", "\n",
];
const COM: &[&str] = &[
    "//x\n", "//\r", "//x\u{2028}", "//", "/**/", "/* \n */", "/* \r*/", "/*\u{2029}*/", "/***/", "/*/", "/* * / **/", "<!--x\n", "<!--", "-->x\n", "-->", "<!-", "<!", "--", ">", "/* ", "/*/ */", "/*\n", "/*\n*/-->x\n", "/* */-->x\n", "//-->\n", "<!--\n-->y\n", "a-->b", "\n-->", "/**/\n/**/",
];
const NUM: &[&str] = &["0", "1", "9", "_", "x", "X", "o", "O", "b", "B", "e", "E", "+", "-", ".", "a", "F", "n", "7", "8", "2", "0x", "0b", "0o", "1e", "1.", ".5", "g", "00", "12", "__", "\\u0061", "\u{e9}", "$"];
const STR: &[&str] = &["\"", "'", "\\", "\\\\", "\\\"", "\\'", "a", "b", "\n", "\r", "\r\n", "\\\r\n", "\\\n", "\\\r", "\\\u{2028}", "\u{2028}", "\u{2029}", "\\u0041", "\\x41", "\u{e9}", "${", "`", " ", "\"\"", "''", "\"a\"", "'a'"];
const TPL: &[&str] = &["`", "`", "${", "}", "{", "$", "\\", "\\`", "\\${", "\\$", "a", "\n", "\r\n", "$$", "\\\\", "}`", "`${", "`a`", "\u{1F600}", "b"];
const REG: &[&str] = &["/", "/", "[", "]", "\\", "\\/", "\\[", "\\]", "a", "\n", "\u{2028}", "\\\n", "g", "i", "(", "*", "[/]", "/a/", "\\\\", "=", "$", "\u{200d}", "\u{e9}", "\\u0061"];
const IDS: &[&str] = &[
    "a", "b1", "$", "_", "\\u0061", "\\u{61}", "\\u{000061}", "\\u{110000}", "\\u{10FFFF}", "\\u{d800}", "\\uD800", "\\u", "\\u{", "\\u{}", "\\u{61", "\\u006", "\\x61", "\\", "\u{200c}", "\u{200d}", "\u{e9}", "\u{65e5}", "\u{1d4b3}", "\u{2118}", "\u{b7}", "\u{300}",
    "\\u0031", "\\u{200c}", "1", "\\u0020", "\\u{0000000000000061}", "\\u{FFFFFFFFFFFFFFFFF}", "\\u{1d4b3}", "\\u002d", "@", "#", "\u{1F600}", "\u{7f}", "\u{0}",
];

pub fn lex_piece(r: &mut Rng, focus: &str) -> String {
    let groups: &[&[&str]] = &[WS, COM, crate::tables::PUNCTS, NUM, STR, TPL, REG, IDS, crate::tables::KEYWORDS];
    let f: Option<&[&str]> = match focus {
        "ws" => Some(if r.one_in(2) { WS } else { COM }),
        "punct" => Some(crate::tables::PUNCTS),
        "num" => Some(NUM),
        "lit" => Some([STR, TPL, REG][r.below(3)]),
        "ident" => Some(if r.one_in(3) { crate::tables::KEYWORDS } else { IDS }),
        _ => None,
    };
    let g = match f {
        Some(g) if !r.one_in(6) => g,
        _ => groups[r.below(groups.len())],
    };
    r.pick(g).to_string()
}
fn gen(r: &mut Rng, focus: &str) -> String {
    let mut t = String::new();
    if focus == "lit" && !r.one_in(4) {
        // one literal, well delimited most of the time
        let (g, o): (&[&str], &str) = *r.pick(&[(STR, "\""), (STR, "'"), (TPL, "`"), (REG, "/"), (TPL, "}")]);
        t.push_str(o);
        for _ in 0..r.below(6) {
            t.push_str(r.pick(g));
        }
        if !r.one_in(3) {
            t.push_str(if o == "}" { "`" } else { o });
        }
        for _ in 0..r.below(3) {
            t.push_str(r.pick(g));
        }
        return t;
    }
    let n = 1 + r.below(if focus == "num" || focus == "ident" { 5 } else { 9 });
    for _ in 0..n {
        t.push_str(&lex_piece(r, focus));
        if focus != "num" && focus != "ident" && r.one_in(4) {
            t.push(' ');
        }
    }
    t
}
/// reported position of character k (fajt counts the last character before it in UTF-16 units)
pub fn mpos(s: &[char], k: usize) -> usize {
    if k == 0 {
        return 0;
    }
    s[..k - 1].iter().map(|c| c.len_utf8()).sum::<usize>() + s[k - 1].len_utf16()
}
fn bpos(s: &[char], k: usize) -> usize {
    s[..k].iter().map(|c| c.len_utf8()).sum()
}
pub enum Out {
    Same(usize),
    /// spans wrong only behind a non-ASCII character, as recorded in the known findings
    Shifted(String),
    Diff(String),
}
fn state(r: RState) -> LexerState {
    if r.template {
        LexerState::inside_template()
    } else if r.regex {
        LexerState::regex_allowed()
    } else {
        LexerState::default().with_html_comments_allowed(r.html)
    }
}
/// `sts` chooses the state of every read: bit 0 regex, bit 1 template (only at a brace), bit 2 no HTML comments
pub fn compare(t: &str, sts: u64) -> Out {
    let mut m = Ref::new(t);
    let mut lx = match Lexer::new(t) {
        Ok(l) => l,
        Err(e) => return Out::Diff(format!("Lexer::new({t:?}) fails: {e:?}")),
    };
    let mut shifted = None;
    let nohtml = sts & 1 == 1;
    for n in 0..10_000u64 {
        let b = (sts >> (1 + (n * 2) % 60)) & 3;
        let at_brace = m.s.get(m.k) == Some(&'}');
        let st = RState { html: !nohtml, regex: false, template: false };
        let st = match b {
            1 => RState { html: true, regex: true, template: false },
            2 | 3 if at_brace => RState { html: true, regex: false, template: true },
            _ => st,
        };
        let before = m.k;
        let want = m.read(st);
        lx.set_state(state(st));
        let got = lx.read();
        let ctx = || format!("source {t:?}, read {n} (from character {before}, {st:?})");
        match (want, got) {
            (Ok(w), Ok(g)) => {
                if w.value != g.value {
                    return Out::Diff(format!("{}: token is {:?}, expected {:?}", ctx(), g.value, w.value));
                }
                if w.fol != g.first_on_line {
                    return Out::Diff(format!("{}: first_on_line of {:?} is {}, expected {}", ctx(), g.value, g.first_on_line, w.fol));
                }
                let (bi, bj) = (bpos(&m.s, w.i), bpos(&m.s, w.j));
                if (g.span.start, g.span.end) != (bi, bj) {
                    let s = format!("{}: span of {:?} is {}..{}, its text is at {bi}..{bj}", ctx(), g.value, g.span.start, g.span.end);
                    if (g.span.start, g.span.end) != (mpos(&m.s, w.i), mpos(&m.s, w.j)) {
                        return Out::Diff(s);
                    }
                    shifted = Some(s);
                }
            }
            (Err(e), Err(g)) => {
                if (*g.kind() == ErrorKind::EndOfStream) != (e == RErr::End) {
                    return Out::Diff(format!("{}: error {g:?}, expected {e:?}", ctx()));
                }
                return shifted.map_or(Out::Same(n as usize), Out::Shifted);
            }
            (Ok(w), Err(g)) => return Out::Diff(format!("{}: rejected ({g}), expected {:?}", ctx(), w.value)),
            (Err(e), Ok(g)) => return Out::Diff(format!("{}: accepted as {:?}, expected {e:?}", ctx(), g.value)),
        }
    }
    Out::Diff(format!("{t:?}: no end after 10000 tokens"))
}

pub struct LexMode {
    pub focus: &'static str,
}
const FIXED: &[&str] = &["\u{e9} a", "\u{65e5}+1", "a\u{2028}b", "'\u{e9}' x"];
/// behind a non-ASCII character `<!--` is looked for at the wrong position (part of the known finding on positions)
fn excluded(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    (1..c.len()).any(|i| c[i] == '<' && !c[i - 1].is_ascii())
}
impl LexMode {
    fn one(&self, t: &str, sts: u64) -> (bool, Option<Failure>) {
        let inp = json!({"source": t, "states": sts.to_string()});
        match guard(|| compare(t, sts)) {
            Ok(Out::Same(n)) => (n > 0, None),
            Ok(Out::Shifted(s)) => (true, if self.focus == "ws" { Some(Failure { input: inp, what: s, signature: "lex position behind a non-ASCII character".into() }) } else { None }),
            Ok(Out::Diff(s)) => (true, Some(Failure { input: inp, what: s, signature: "lex".into() })),
            Err(p) => (true, Some(Failure { input: inp, what: format!("{t:?}: {p}"), signature: "lex panic".into() })),
        }
    }
}
impl Mode for LexMode {
    fn rule(&self) -> &'static str {
        "texts assembled from lexical pieces (weighted towards the property's token class), every read in a randomly chosen lexer state, compared token by token (value, span, first_on_line, error) with an independent reference lexer; a case counts if at least one token was read"
    }
    fn case(&mut self, n: u64, r: &mut Rng) -> Option<Case> {
        let t = if (n as usize) < FIXED.len() { FIXED[n as usize].to_string() } else { gen(r, self.focus) };
        let sts = if r.one_in(3) { 0 } else { r.next() };
        if excluded(&t) {
            return Some(Case { key: t, nontrivial: false, fail: None });
        }
        let (nt, fail) = self.one(&t, sts);
        Some(Case { key: format!("{t:?} {sts:x}"), nontrivial: nt, fail })
    }
    fn replay(&mut self, i: &serde_json::Value) -> Option<Failure> {
        self.one(i["source"].as_str()?, i["states"].as_str()?.parse().ok()?).1
    }
}
/// Every code point: character classes, and ID_Start inside ID_Continue (assumed by the proof).
pub struct Chars;
impl Chars {
    fn one(&self, c: char) -> Option<Failure> {
        use unicode_id::UnicodeID;
        if c.is_id_start() && !c.is_id_continue() {
            return Some(Failure { input: json!({ "char": c as u32 }), what: format!("{c:?} is ID_Start and not ID_Continue"), signature: "chars".into() });
        }
        for t in [format!("{c}"), format!("a{c}b"), format!("1{c}"), format!("'a{c}'"), format!("\\u{{{:x}}}", c as u32), format!("a\\u{{{:x}}}", c as u32), format!("//{c}a"), format!("/*{c}*/a")] {
            let f = match guard(|| compare(&t, 0)) {
                Ok(Out::Diff(s)) => s,
                Err(p) => p,
                _ => continue,
            };
            return Some(Failure { input: json!({ "char": c as u32 }), what: f, signature: "chars".into() });
        }
        None
    }
}
impl Mode for Chars {
    fn rule(&self) -> &'static str {
        "every Unicode scalar value (enumerated completely, time permitting) alone, inside an identifier, a string, a comment, an escape and behind a number; all count"
    }
    fn case(&mut self, n: u64, _: &mut Rng) -> Option<Case> {
        // ASCII and the interesting low planes first
        let c = if n > 0x10FFFF { return None } else { char::from_u32(n as u32) };
        match c {
            None => Some(Case { key: String::new(), nontrivial: false, fail: None }),
            Some(c) => Some(Case { key: format!("char {:x}", c as u32), nontrivial: true, fail: self.one(c) }),
        }
    }
    fn replay(&mut self, i: &serde_json::Value) -> Option<Failure> {
        self.one(char::from_u32(i["char"].as_u64()? as u32)?)
    }
}
