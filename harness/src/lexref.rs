//! Independent reference lexer (ECMA-262 lexical grammar as fajt implements it), over characters.
use fajt_ast::{LitNumber, LitString, LitTemplate, Literal, TemplatePart};
use fajt_lexer::token::TokenValue;
use std::str::FromStr;
use unicode_id::UnicodeID;

#[derive(Clone, Debug)]
pub struct RTok {
    pub value: TokenValue,
    pub fol: bool,
    /// character indices
    pub i: usize,
    pub j: usize,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RState {
    pub html: bool,
    pub regex: bool,
    pub template: bool,
}
pub const DEFAULT: RState = RState { html: true, regex: false, template: false };
#[derive(Debug, PartialEq)]
pub enum RErr {
    End,
    Bad,
}
pub struct Ref {
    pub s: Vec<char>,
    pub k: usize,
    pub fol: bool,
}
pub fn ws(c: char) -> bool {
    "\t\u{B}\u{C} \u{A0}\u{FEFF}\u{1680}\u{202F}\u{205F}\u{3000}".contains(c) || ('\u{2000}'..='\u{200A}').contains(&c)
}
pub fn lt(c: char) -> bool {
    "\n\r\u{2028}\u{2029}".contains(c)
}
pub fn id_s(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_' || c == '$' || (!c.is_ascii() && c.is_id_start())
}
pub fn id_p(c: char) -> bool {
    id_s(c) || c.is_ascii_digit() || c == '\u{200c}' || c == '\u{200d}' || (!c.is_ascii() && c.is_id_continue())
}
impl Ref {
    pub fn new(t: &str) -> Self {
        Ref { s: t.chars().collect(), k: 0, fol: true }
    }
    fn at(&self, k: usize) -> Option<char> {
        self.s.get(k).copied()
    }
    fn has(&self, k: usize, t: &str) -> bool {
        t.chars().enumerate().all(|(n, c)| self.at(k + n) == Some(c))
    }
    fn line(&mut self) {
        while self.at(self.k).map_or(false, |c| !lt(c)) {
            self.k += 1;
        }
        if self.k < self.s.len() {
            self.k += 1;
        }
        self.fol = true;
    }
    pub fn skip(&mut self, html: bool) -> Result<(), RErr> {
        while let Some(c) = self.at(self.k) {
            if lt(c) {
                self.fol = true;
                self.k += 1;
            } else if ws(c) {
                self.k += 1;
            } else if self.has(self.k, "//") {
                self.k += 2;
                self.line();
            } else if self.has(self.k, "<!--") {
                if !html {
                    return Err(RErr::Bad);
                }
                self.k += 2;
                self.line();
            } else if self.has(self.k, "/*") {
                self.k += 2;
                loop {
                    if self.has(self.k, "*/") {
                        self.k += 2;
                        break;
                    }
                    match self.at(self.k) {
                        None => return Err(RErr::Bad),
                        Some(c) => {
                            self.fol |= lt(c);
                            self.k += 1;
                        }
                    }
                }
            } else {
                break;
            }
        }
        Ok(())
    }
    pub fn read(&mut self, st: RState) -> Result<RTok, RErr> {
        if st.template {
            if self.at(self.k) != Some('}') {
                return Err(RErr::Bad);
            }
            let i = self.k;
            let (v, sub) = self.template(i + 1)?;
            self.fol = false;
            return Ok(RTok { value: if sub { TokenValue::TemplateMiddle(v) } else { TokenValue::TemplateTail(v) }, fol: false, i, j: self.k });
        }
        loop {
            self.skip(st.html)?;
            if self.k >= self.s.len() {
                return Err(RErr::End);
            }
            let i = self.k;
            let value = self.token(st.regex)?;
            if self.fol && self.has(i, "-->") {
                if !st.html {
                    return Err(RErr::Bad);
                }
                self.line();
                continue;
            }
            let t = RTok { value, fol: self.fol, i, j: self.k };
            self.fol = false;
            return Ok(t);
        }
    }
    fn text(&self, i: usize, j: usize) -> String {
        self.s[i..j].iter().collect()
    }
    fn token(&mut self, regex: bool) -> Result<TokenValue, RErr> {
        let i = self.k;
        let c = self.s[i];
        if c == '/' && regex {
            return self.regexp();
        }
        if c.is_ascii_digit() || (c == '.' && self.at(i + 1).map_or(false, |c| c.is_ascii_digit())) {
            let e = number(&self.s, i).ok_or(RErr::Bad)?;
            self.k = e;
            return Ok(TokenValue::Literal(Literal::Number(LitNumber { raw: self.text(i, e) })));
        }
        if c == '"' || c == '\'' {
            return self.string(c);
        }
        if c == '`' {
            let (v, sub) = self.template(i + 1)?;
            return Ok(if sub { TokenValue::TemplateHead(v) } else { TokenValue::Literal(Literal::Template(LitTemplate { parts: vec![TemplatePart::String(v)] })) });
        }
        if id_s(c) || c == '\\' {
            let w = self.word()?;
            return Ok(if crate::tables::KEYWORDS.contains(&w.as_str()) { TokenValue::Keyword(fajt_lexer::token::Keyword::from_str(&w).map_err(|_| RErr::Bad)?) } else { TokenValue::Identifier(w) });
        }
        // longest punctuator
        let mut best = 0;
        for p in crate::tables::PUNCTS {
            if p.len() > best && self.has(i, p) {
                if *p == "?." && self.at(i + 2).map_or(false, |c| c.is_ascii_digit()) {
                    continue;
                }
                best = p.len();
            }
        }
        if best == 0 || (best == 1 && self.has(i, "..")) {
            return Err(RErr::Bad);
        }
        self.k = i + best;
        match fajt_lexer::token::Punctuator::from_str(&self.text(i, i + best)) {
            Ok(p) => Ok(TokenValue::Punctuator(p)),
            Err(_) => Err(RErr::Bad),
        }
    }
    fn template(&mut self, from: usize) -> Result<(String, bool), RErr> {
        let mut v = String::new();
        let mut k = from;
        loop {
            match self.at(k) {
                None => return Err(RErr::Bad),
                Some('`') => {
                    self.k = k + 1;
                    return Ok((v, false));
                }
                Some('$') if self.at(k + 1) == Some('{') => {
                    self.k = k + 2;
                    return Ok((v, true));
                }
                Some('\\') => {
                    v.push(self.at(k + 1).ok_or(RErr::Bad)?);
                    k += 2;
                }
                Some(c) => {
                    v.push(c);
                    k += 1;
                }
            }
        }
    }
    fn string(&mut self, d: char) -> Result<TokenValue, RErr> {
        let mut k = self.k + 1;
        let mut v = String::new();
        loop {
            match self.at(k) {
                None | Some('\n') | Some('\r') => return Err(RErr::Bad),
                Some('\\') => {
                    if self.has(k + 1, "\r\n") {
                        v.push_str("\r\n");
                        k += 3;
                    } else {
                        v.push(self.at(k + 1).ok_or(RErr::Bad)?);
                        k += 2;
                    }
                }
                Some(c) if c == d => {
                    self.k = k + 1;
                    return Ok(TokenValue::Literal(Literal::String(LitString { value: v, delimiter: d })));
                }
                Some(c) => {
                    v.push(c);
                    k += 1;
                }
            }
        }
    }
    fn regexp(&mut self) -> Result<TokenValue, RErr> {
        let i = self.k;
        let mut k = i + 1;
        let mut class = false;
        loop {
            match self.at(k) {
                None => return Err(RErr::Bad),
                Some(c) if lt(c) => return Err(RErr::Bad),
                Some('\\') => {
                    if self.at(k + 1).map_or(true, lt) {
                        return Err(RErr::Bad);
                    }
                    k += 2;
                }
                Some('[') => {
                    class = true;
                    k += 1;
                }
                Some(']') => {
                    class = false;
                    k += 1;
                }
                Some('/') if !class => {
                    k += 1;
                    break;
                }
                Some(_) => k += 1,
            }
        }
        while self.at(k).map_or(false, id_p) {
            k += 1;
        }
        self.k = k;
        Ok(TokenValue::Literal(Literal::Regexp(self.text(i, k))))
    }
    fn word(&mut self) -> Result<String, RErr> {
        let mut w = String::new();
        let mut k = self.k;
        loop {
            match self.at(k) {
                Some(c) if id_p(c) => {
                    w.push(c);
                    k += 1;
                }
                Some('\\') => {
                    if self.at(k + 1) != Some('u') {
                        return Err(RErr::Bad);
                    }
                    let (hex, e) = if self.at(k + 2) == Some('{') {
                        let mut e = k + 3;
                        while self.at(e).map_or(false, |c| c.is_ascii_hexdigit()) {
                            e += 1;
                        }
                        if self.at(e) != Some('}') || e == k + 3 {
                            return Err(RErr::Bad);
                        }
                        (self.text(k + 3, e), e + 1)
                    } else {
                        if (0..4).any(|n| !self.at(k + 2 + n).map_or(false, |c| c.is_ascii_hexdigit())) {
                            return Err(RErr::Bad);
                        }
                        (self.text(k + 2, k + 6), k + 6)
                    };
                    let t = hex.trim_start_matches('0');
                    if t.len() > 6 {
                        return Err(RErr::Bad);
                    }
                    let n = if t.is_empty() { 0 } else { u32::from_str_radix(t, 16).map_err(|_| RErr::Bad)? };
                    let c = char::from_u32(n).ok_or(RErr::Bad)?;
                    if !(if w.is_empty() { id_s(c) } else { id_p(c) }) {
                        return Err(RErr::Bad);
                    }
                    w.push(c);
                    k = e;
                }
                _ => break,
            }
        }
        self.k = k;
        Ok(w)
    }
}
/// end of the numeric literal at i
pub fn number(s: &[char], i: usize) -> Option<usize> {
    let at = |k: usize| s.get(k).copied();
    let digits = |k: usize, f: &dyn Fn(char) -> bool| -> Option<usize> {
        let mut e = k;
        while at(e).map_or(false, |c| f(c) || c == '_') {
            e += 1;
        }
        for n in k..e {
            // a separator stands between two digits
            if s[n] == '_' && (n == k || n + 1 == e || s[n - 1] == '_') {
                return None;
            }
        }
        Some(e)
    };
    let dec = |c: char| c.is_ascii_digit();
    let some = |k: usize, f: &dyn Fn(char) -> bool| digits(k, f).filter(|e| *e > k);
    let e = match (at(i), at(i + 1)) {
        (Some('0'), Some('x' | 'X')) => some(i + 2, &|c| c.is_ascii_hexdigit())?,
        (Some('0'), Some('o' | 'O')) => some(i + 2, &|c| ('0'..='7').contains(&c))?,
        (Some('0'), Some('b' | 'B')) => some(i + 2, &|c| c == '0' || c == '1')?,
        (Some('0'), Some(c)) if dec(c) || c == '_' => return None,
        _ => {
            let mut e = digits(i, &dec)?;
            if at(e) == Some('.') {
                e = digits(e + 1, &dec)?;
            }
            if matches!(at(e), Some('e' | 'E')) {
                e += 1;
                if matches!(at(e), Some('+' | '-')) {
                    e += 1;
                }
                e = some(e, &dec)?;
            }
            e
        }
    };
    if at(e).map_or(false, id_s) {
        return None;
    }
    Some(e)
}
