verus! {
pub mod lexspec {
use vstd::prelude::*;
use crate::vx::*;
use crate::rd::*;
use crate::fajt_common::io::*;
use crate::fajt_ast::{Span, Literal, LitString, LitNumber, LitTemplate, TemplatePart};
use crate::fajt_lexer::*;
use crate::fajt_lexer::token::*;
use std::str::CharIndices;

// ---------- characters ----------
pub open spec fn is_ws(c: char) -> bool {
    c == '\u{9}' || c == '\u{B}' || c == '\u{C}' || c == ' ' || c == '\u{A0}' || c == '\u{FEFF}' || c == '\u{1680}'
    || ('\u{2000}' <= c && c <= '\u{200A}') || c == '\u{202F}' || c == '\u{205F}' || c == '\u{3000}'
}
pub open spec fn is_lt(c: char) -> bool { c == '\u{A}' || c == '\u{D}' || c == '\u{2028}' || c == '\u{2029}' }
pub open spec fn is_dec(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_id_s(c: char) -> bool { ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || c == '_' || c == '$' || id_start(c) }
pub open spec fn is_id_p(c: char) -> bool {
    is_dec(c) || ('A' <= c && c <= 'Z') || ('a' <= c && c <= 'z') || c == '_' || c == '$' || c == '\u{200c}' || c == '\u{200d}' || id_continue(c)
}
pub enum Cls { Dec, Hex, Oct, Bin, NotLt, IdP }
pub open spec fn in_cls(q: Cls, c: char) -> bool {
    match q {
        Cls::Dec => is_dec(c) || c == '_',
        Cls::Hex => is_dec(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') || c == '_',
        Cls::Oct => ('0' <= c && c <= '7') || c == '_',
        Cls::Bin => c == '0' || c == '1' || c == '_',
        Cls::NotLt => !is_lt(c),
        Cls::IdP => is_id_p(c),
    }
}
pub open spec fn ch(s: Seq<char>, k: int, c: char) -> bool { 0 <= k < s.len() && s[k] == c }

/// end of the run of characters of class q that starts at k
pub open spec fn run_end(s: Seq<char>, k: int, q: Cls) -> int
    decreases s.len() - k,
{
    if 0 <= k < s.len() && in_cls(q, s[k]) { run_end(s, k + 1, q) } else { k }
}
pub broadcast proof fn lemma_run(s: Seq<char>, k: int, q: Cls)
    requires 0 <= k <= s.len(),
    ensures k <= #[trigger] run_end(s, k, q) <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() && in_cls(q, s[k]) { lemma_run(s, k + 1, q); }
}
/// reported position of the k-th character boundary
pub open spec fn mpos(s: Seq<char>, k: int) -> int { wpos::<char, CharIndices<'static>>(s, k) }
pub open spec fn bpos(s: Seq<char>, k: int) -> int { bsum::<char, CharIndices<'static>>(s, k) }

// ---------- white space and comments ----------
/// just behind the line terminator that ends the line of k (the end of the text if there is none)
#[verifier::opaque]
pub open spec fn next_line(s: Seq<char>, k: int) -> int {
    let e = run_end(s, k, Cls::NotLt);
    if e < s.len() { e + 1 } else { e }
}
/// just behind the first `*/` at or after k; -1 if there is none
pub open spec fn comment_end(s: Seq<char>, k: int) -> int
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) { -1 } else if ch(s, k, '*') && ch(s, k + 1, '/') { k + 2 } else { comment_end(s, k + 1) }
}
pub proof fn lemma_comment_end(s: Seq<char>, k: int)
    requires 0 <= k,
    ensures comment_end(s, k) == -1 || k + 2 <= comment_end(s, k) <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() && !(ch(s, k, '*') && ch(s, k + 1, '/')) { lemma_comment_end(s, k + 1); }
}
pub open spec fn has_lt(s: Seq<char>, a: int, b: int) -> bool { exists|i: int| a <= i < b && 0 <= i < s.len() && is_lt(#[trigger] s[i]) }
/// `<!--` at k (looked up by reported position)
pub open spec fn html_open(s: Seq<char>, k: int) -> bool { boundary(s, mpos(s, k)) && starts_seq(after(s, mpos(s, k)), "<!--"@) }
/// Skips white space, line terminators and comments from k on; the flag says whether a line terminator was crossed.
pub open spec fn sk(s: Seq<char>, k: int, f: bool, html: bool) -> Option<(int, bool)>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) { Some((k, f)) }
    else if is_lt(s[k]) { sk(s, k + 1, true, html) }
    else if is_ws(s[k]) { sk(s, k + 1, f, html) }
    else if ch(s, k, '/') && ch(s, k + 1, '/') {
        let e = next_line(s, k + 2);
        if k < e <= s.len() { sk(s, e, true, html) } else { None }
    }
    else if ch(s, k, '<') && ch(s, k + 1, '!') && html_open(s, k) {
        let e = next_line(s, k + 2);
        if html && k < e <= s.len() { sk(s, e, true, html) } else { None }
    }
    else if ch(s, k, '/') && ch(s, k + 1, '*') {
        let e = comment_end(s, k + 2);
        if k < e <= s.len() { sk(s, e, f || has_lt(s, k + 2, e - 2), html) } else { None }
    }
    else { Some((k, f)) }
}
#[verifier::opaque]
pub open spec fn skx(s: Seq<char>, k: int, f: bool, html: bool) -> Option<(int, bool)> { sk(s, k, f, html) }
pub proof fn lemma_skx(s: Seq<char>, k: int, f: bool, html: bool)
    requires 0 <= k <= s.len(),
    ensures skx(s, k, f, html) matches Some(x) ==> k <= x.0 <= s.len() && (f ==> x.1) && (forall|g: bool| #[trigger] skx(s, x.0, g, html) == Some((x.0, g))),
{ reveal(skx); lemma_sk(s, k, f, html); match sk(s, k, f, html) { Some(x) => { assert forall|g: bool| #[trigger] skx(s, x.0, g, html) == Some((x.0, g)) by { assert(sk(s, x.0, g, html) == Some((x.0, g))); } }, None => {} } }
pub proof fn lemma_next_line(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures k <= next_line(s, k) <= s.len(),
{ reveal(next_line); lemma_run(s, k, Cls::NotLt); }
pub proof fn lemma_sk(s: Seq<char>, k: int, f: bool, html: bool)
    requires 0 <= k <= s.len(),
    ensures sk(s, k, f, html) matches Some(x) ==> k <= x.0 <= s.len() && (f ==> x.1) && (forall|g: bool| #[trigger] sk(s, x.0, g, html) == Some((x.0, g))),
    decreases s.len() - k,
{
    if k < s.len() {
        if is_lt(s[k]) { lemma_sk(s, k + 1, true, html); }
        else if is_ws(s[k]) { lemma_sk(s, k + 1, f, html); }
        else if ch(s, k, '/') && ch(s, k + 1, '/') {
            lemma_next_line(s, k + 2);
            lemma_sk(s, next_line(s, k + 2), true, html);
        } else if ch(s, k, '<') && ch(s, k + 1, '!') && html_open(s, k) {
            lemma_next_line(s, k + 2);
            lemma_sk(s, next_line(s, k + 2), true, html);
        } else if ch(s, k, '/') && ch(s, k + 1, '*') {
            lemma_comment_end(s, k + 2);
            if comment_end(s, k + 2) > k { lemma_sk(s, comment_end(s, k + 2), f || has_lt(s, k + 2, comment_end(s, k + 2) - 2), html); }
        }
    }
}

// ---------- punctuators ----------
/// the punctuator at k and its length
pub open spec fn pt(s: Seq<char>, k: int) -> Option<(Punctuator, int)> {
    if !(0 <= k < s.len()) { None }
    else if s[k] == '(' { Some((Punctuator::ParenOpen, 1)) }
    else if s[k] == ')' { Some((Punctuator::ParenClose, 1)) }
    else if s[k] == '[' { Some((Punctuator::BraceOpen, 1)) }
    else if s[k] == ']' { Some((Punctuator::BraceClose, 1)) }
    else if s[k] == '{' { Some((Punctuator::BracketOpen, 1)) }
    else if s[k] == '}' { Some((Punctuator::BracketClose, 1)) }
    else if s[k] == ';' { Some((Punctuator::SemiColon, 1)) }
    else if s[k] == ',' { Some((Punctuator::Comma, 1)) }
    else if s[k] == '~' { Some((Punctuator::Tilde, 1)) }
    else if s[k] == ':' { Some((Punctuator::Colon, 1)) }
    else if s[k] == '.' {
        if ch(s, k + 1, '.') { if ch(s, k + 2, '.') { Some((Punctuator::TripleDot, 3)) } else { None } } else { Some((Punctuator::Dot, 1)) }
    }
    else if s[k] == '<' {
        if ch(s, k + 1, '=') { Some((Punctuator::LessEqual, 2)) }
        else if ch(s, k + 1, '<') { if ch(s, k + 2, '=') { Some((Punctuator::DoubleLessEqual, 3)) } else { Some((Punctuator::DoubleLessThan, 2)) } }
        else { Some((Punctuator::LessThan, 1)) }
    }
    else if s[k] == '>' {
        if ch(s, k + 1, '=') { Some((Punctuator::GreaterEqual, 2)) }
        else if ch(s, k + 1, '>') {
            if ch(s, k + 2, '>') { if ch(s, k + 3, '=') { Some((Punctuator::TripleGreaterEqual, 4)) } else { Some((Punctuator::TripleGreaterThan, 3)) } }
            else if ch(s, k + 2, '=') { Some((Punctuator::DoubleGreaterEqual, 3)) }
            else { Some((Punctuator::DoubleGreaterThan, 2)) }
        }
        else { Some((Punctuator::GreaterThan, 1)) }
    }
    else if s[k] == '=' {
        if ch(s, k + 1, '=') { if ch(s, k + 2, '=') { Some((Punctuator::TripleEqual, 3)) } else { Some((Punctuator::DoubleEqual, 2)) } }
        else if ch(s, k + 1, '>') { Some((Punctuator::EqualGreater, 2)) }
        else { Some((Punctuator::Equal, 1)) }
    }
    else if s[k] == '!' {
        if ch(s, k + 1, '=') { if ch(s, k + 2, '=') { Some((Punctuator::ExclamationDoubleEqual, 3)) } else { Some((Punctuator::NotEqual, 2)) } }
        else { Some((Punctuator::Exclamation, 1)) }
    }
    else if s[k] == '+' { if ch(s, k + 1, '=') { Some((Punctuator::PlusEqual, 2)) } else if ch(s, k + 1, '+') { Some((Punctuator::DoublePlus, 2)) } else { Some((Punctuator::Plus, 1)) } }
    else if s[k] == '-' { if ch(s, k + 1, '=') { Some((Punctuator::MinusEqual, 2)) } else if ch(s, k + 1, '-') { Some((Punctuator::DoubleMinus, 2)) } else { Some((Punctuator::Minus, 1)) } }
    else if s[k] == '*' {
        if ch(s, k + 1, '=') { Some((Punctuator::StarEqual, 2)) }
        else if ch(s, k + 1, '*') { if ch(s, k + 2, '=') { Some((Punctuator::DoubleStarEqual, 3)) } else { Some((Punctuator::DoubleStar, 2)) } }
        else { Some((Punctuator::Star, 1)) }
    }
    else if s[k] == '/' { if ch(s, k + 1, '=') { Some((Punctuator::SlashEqual, 2)) } else { Some((Punctuator::Slash, 1)) } }
    else if s[k] == '%' { if ch(s, k + 1, '=') { Some((Punctuator::PercentEqual, 2)) } else { Some((Punctuator::Percent, 1)) } }
    else if s[k] == '&' { if ch(s, k + 1, '=') { Some((Punctuator::AmpersandEqual, 2)) } else if ch(s, k + 1, '&') { Some((Punctuator::DoubleAmpersand, 2)) } else { Some((Punctuator::Ampersand, 1)) } }
    else if s[k] == '|' { if ch(s, k + 1, '=') { Some((Punctuator::PipeEqual, 2)) } else if ch(s, k + 1, '|') { Some((Punctuator::DoublePipe, 2)) } else { Some((Punctuator::Pipe, 1)) } }
    else if s[k] == '^' { if ch(s, k + 1, '=') { Some((Punctuator::CaretEqual, 2)) } else { Some((Punctuator::Caret, 1)) } }
    else if s[k] == '?' {
        if ch(s, k + 1, '.') && !(0 <= k + 2 < s.len() && is_dec(s[k + 2])) { Some((Punctuator::QuestionMarkDot, 2)) }
        else if ch(s, k + 1, '?') { Some((Punctuator::DoubleQuestionMark, 2)) }
        else { Some((Punctuator::QuestionMark, 1)) }
    }
    else { None }
}

// ---------- the punctuator read is the longest one of the table ----------
/// length and characters of every punctuator
pub open spec fn pchars(p: Punctuator) -> (int, char, char, char, char) {
    match p {
        Punctuator::ParenOpen => (1, '(', '\0', '\0', '\0'),
        Punctuator::ParenClose => (1, ')', '\0', '\0', '\0'),
        Punctuator::BraceOpen => (1, '[', '\0', '\0', '\0'),
        Punctuator::BraceClose => (1, ']', '\0', '\0', '\0'),
        Punctuator::BracketOpen => (1, '{', '\0', '\0', '\0'),
        Punctuator::BracketClose => (1, '}', '\0', '\0', '\0'),
        Punctuator::Dot => (1, '.', '\0', '\0', '\0'),
        Punctuator::TripleDot => (3, '.', '.', '.', '\0'),
        Punctuator::SemiColon => (1, ';', '\0', '\0', '\0'),
        Punctuator::Comma => (1, ',', '\0', '\0', '\0'),
        Punctuator::LessThan => (1, '<', '\0', '\0', '\0'),
        Punctuator::DoubleLessThan => (2, '<', '<', '\0', '\0'),
        Punctuator::GreaterThan => (1, '>', '\0', '\0', '\0'),
        Punctuator::DoubleGreaterThan => (2, '>', '>', '\0', '\0'),
        Punctuator::TripleGreaterThan => (3, '>', '>', '>', '\0'),
        Punctuator::Equal => (1, '=', '\0', '\0', '\0'),
        Punctuator::DoubleEqual => (2, '=', '=', '\0', '\0'),
        Punctuator::LessEqual => (2, '<', '=', '\0', '\0'),
        Punctuator::DoubleLessEqual => (3, '<', '<', '=', '\0'),
        Punctuator::GreaterEqual => (2, '>', '=', '\0', '\0'),
        Punctuator::DoubleGreaterEqual => (3, '>', '>', '=', '\0'),
        Punctuator::TripleGreaterEqual => (4, '>', '>', '>', '='),
        Punctuator::EqualGreater => (2, '=', '>', '\0', '\0'),
        Punctuator::NotEqual => (2, '!', '=', '\0', '\0'),
        Punctuator::PlusEqual => (2, '+', '=', '\0', '\0'),
        Punctuator::MinusEqual => (2, '-', '=', '\0', '\0'),
        Punctuator::StarEqual => (2, '*', '=', '\0', '\0'),
        Punctuator::DoubleStarEqual => (3, '*', '*', '=', '\0'),
        Punctuator::SlashEqual => (2, '/', '=', '\0', '\0'),
        Punctuator::PercentEqual => (2, '%', '=', '\0', '\0'),
        Punctuator::PipeEqual => (2, '|', '=', '\0', '\0'),
        Punctuator::CaretEqual => (2, '^', '=', '\0', '\0'),
        Punctuator::AmpersandEqual => (2, '&', '=', '\0', '\0'),
        Punctuator::TripleEqual => (3, '=', '=', '=', '\0'),
        Punctuator::ExclamationDoubleEqual => (3, '!', '=', '=', '\0'),
        Punctuator::Plus => (1, '+', '\0', '\0', '\0'),
        Punctuator::DoublePlus => (2, '+', '+', '\0', '\0'),
        Punctuator::Minus => (1, '-', '\0', '\0', '\0'),
        Punctuator::DoubleMinus => (2, '-', '-', '\0', '\0'),
        Punctuator::Star => (1, '*', '\0', '\0', '\0'),
        Punctuator::DoubleStar => (2, '*', '*', '\0', '\0'),
        Punctuator::Slash => (1, '/', '\0', '\0', '\0'),
        Punctuator::Percent => (1, '%', '\0', '\0', '\0'),
        Punctuator::Ampersand => (1, '&', '\0', '\0', '\0'),
        Punctuator::DoubleAmpersand => (2, '&', '&', '\0', '\0'),
        Punctuator::Pipe => (1, '|', '\0', '\0', '\0'),
        Punctuator::DoublePipe => (2, '|', '|', '\0', '\0'),
        Punctuator::Caret => (1, '^', '\0', '\0', '\0'),
        Punctuator::Exclamation => (1, '!', '\0', '\0', '\0'),
        Punctuator::Tilde => (1, '~', '\0', '\0', '\0'),
        Punctuator::QuestionMark => (1, '?', '\0', '\0', '\0'),
        Punctuator::DoubleQuestionMark => (2, '?', '?', '\0', '\0'),
        Punctuator::QuestionMarkDot => (2, '?', '.', '\0', '\0'),
        Punctuator::Colon => (1, ':', '\0', '\0', '\0'),
    }
}
proof fn lemma_pchars(p: Punctuator)
    ensures ({ let t = crate::tables::Table::text(&p); let c = pchars(p); t.len() == c.0 && 1 <= c.0 <= 4 && t[0] == c.1 && (c.0 > 1 ==> t[1] == c.2) && (c.0 > 2 ==> t[2] == c.3) && (c.0 > 3 ==> t[3] == c.4) }),
{
    match p {
        Punctuator::ParenOpen => { reveal_strlit("("); },
        Punctuator::ParenClose => { reveal_strlit(")"); },
        Punctuator::BraceOpen => { reveal_strlit("["); },
        Punctuator::BraceClose => { reveal_strlit("]"); },
        Punctuator::BracketOpen => { reveal_strlit("{"); },
        Punctuator::BracketClose => { reveal_strlit("}"); },
        Punctuator::Dot => { reveal_strlit("."); },
        Punctuator::TripleDot => { reveal_strlit("..."); },
        Punctuator::SemiColon => { reveal_strlit(";"); },
        Punctuator::Comma => { reveal_strlit(","); },
        Punctuator::LessThan => { reveal_strlit("<"); },
        Punctuator::DoubleLessThan => { reveal_strlit("<<"); },
        Punctuator::GreaterThan => { reveal_strlit(">"); },
        Punctuator::DoubleGreaterThan => { reveal_strlit(">>"); },
        Punctuator::TripleGreaterThan => { reveal_strlit(">>>"); },
        Punctuator::Equal => { reveal_strlit("="); },
        Punctuator::DoubleEqual => { reveal_strlit("=="); },
        Punctuator::LessEqual => { reveal_strlit("<="); },
        Punctuator::DoubleLessEqual => { reveal_strlit("<<="); },
        Punctuator::GreaterEqual => { reveal_strlit(">="); },
        Punctuator::DoubleGreaterEqual => { reveal_strlit(">>="); },
        Punctuator::TripleGreaterEqual => { reveal_strlit(">>>="); },
        Punctuator::EqualGreater => { reveal_strlit("=>"); },
        Punctuator::NotEqual => { reveal_strlit("!="); },
        Punctuator::PlusEqual => { reveal_strlit("+="); },
        Punctuator::MinusEqual => { reveal_strlit("-="); },
        Punctuator::StarEqual => { reveal_strlit("*="); },
        Punctuator::DoubleStarEqual => { reveal_strlit("**="); },
        Punctuator::SlashEqual => { reveal_strlit("/="); },
        Punctuator::PercentEqual => { reveal_strlit("%="); },
        Punctuator::PipeEqual => { reveal_strlit("|="); },
        Punctuator::CaretEqual => { reveal_strlit("^="); },
        Punctuator::AmpersandEqual => { reveal_strlit("&="); },
        Punctuator::TripleEqual => { reveal_strlit("==="); },
        Punctuator::ExclamationDoubleEqual => { reveal_strlit("!=="); },
        Punctuator::Plus => { reveal_strlit("+"); },
        Punctuator::DoublePlus => { reveal_strlit("++"); },
        Punctuator::Minus => { reveal_strlit("-"); },
        Punctuator::DoubleMinus => { reveal_strlit("--"); },
        Punctuator::Star => { reveal_strlit("*"); },
        Punctuator::DoubleStar => { reveal_strlit("**"); },
        Punctuator::Slash => { reveal_strlit("/"); },
        Punctuator::Percent => { reveal_strlit("%"); },
        Punctuator::Ampersand => { reveal_strlit("&"); },
        Punctuator::DoubleAmpersand => { reveal_strlit("&&"); },
        Punctuator::Pipe => { reveal_strlit("|"); },
        Punctuator::DoublePipe => { reveal_strlit("||"); },
        Punctuator::Caret => { reveal_strlit("^"); },
        Punctuator::Exclamation => { reveal_strlit("!"); },
        Punctuator::Tilde => { reveal_strlit("~"); },
        Punctuator::QuestionMark => { reveal_strlit("?"); },
        Punctuator::DoubleQuestionMark => { reveal_strlit("??"); },
        Punctuator::QuestionMarkDot => { reveal_strlit("?."); },
        Punctuator::Colon => { reveal_strlit(":"); },
    }
}
/// the text of p stands at k
pub open spec fn stands(s: Seq<char>, k: int, p: Punctuator) -> bool {
    let t = crate::tables::Table::text(&p);
    0 <= k && k + t.len() <= s.len() && forall|i: int| 0 <= i < t.len() ==> s[k + i] == #[trigger] t[i]
}
/// `?.` in front of a digit is not a punctuator; `..` that is not `...` is none either
pub open spec fn barred(s: Seq<char>, k: int, p: Punctuator) -> bool {
    (p == Punctuator::QuestionMarkDot && 0 <= k + 2 < s.len() && is_dec(s[k + 2])) || (p == Punctuator::Dot && ch(s, k + 1, '.') && !ch(s, k + 2, '.'))
}
/// C02: what `pt` yields stands there, and no longer punctuator of the table stands there
pub proof fn lemma_munch(s: Seq<char>, k: int, q: Punctuator)
    ensures
        pt(s, k) matches Some((p, n)) ==> n == crate::tables::Table::text(&p).len() && stands(s, k, p) && !barred(s, k, p),
        stands(s, k, q) && !barred(s, k, q) ==> (pt(s, k) matches Some((p, n)) && crate::tables::Table::text(&q).len() <= n),
{
    lemma_pchars(q);
    if stands(s, k, q) {
        let t = crate::tables::Table::text(&q);
        assert(s[k + 0] == t[0]);
        if t.len() > 1 { assert(s[k + 1] == t[1]); }
        if t.len() > 2 { assert(s[k + 2] == t[2]); }
        if t.len() > 3 { assert(s[k + 3] == t[3]); }
    }
    match pt(s, k) {
        Some((p, n)) => {
            lemma_pchars(p);
            let t = crate::tables::Table::text(&p);
            assert forall|i: int| 0 <= i < t.len() implies s[k + i] == #[trigger] t[i] by { assert(i == 0 || i == 1 || i == 2 || i == 3); }
        },
        None => {},
    }
}
// ---------- literals: index behind the literal ----------
/// digits with separators: a separator only between digits
pub open spec fn digits(s: Seq<char>, k: int, q: Cls) -> Option<int> {
    let e = run_end(s, k, q);
    let t = s.subrange(k, e);
    if contains_seq(t, "__"@) || starts_char(t, '_') || ends_char(t, '_') { None } else { Some(e) }
}
pub open spec fn starts_char(t: Seq<char>, c: char) -> bool { t.len() > 0 && t[0] == c }
pub open spec fn ends_char(t: Seq<char>, c: char) -> bool { t.len() > 0 && t.last() == c }
pub open spec fn digits1(s: Seq<char>, k: int, q: Cls) -> Option<int> {
    match digits(s, k, q) { Some(e) => if e > k { Some(e) } else { None }, None => None }
}
pub open spec fn exponent(s: Seq<char>, k: int) -> Option<int> {
    if ch(s, k, 'e') || ch(s, k, 'E') {
        if ch(s, k + 1, '-') || ch(s, k + 1, '+') { digits1(s, k + 2, Cls::Dec) } else { digits1(s, k + 1, Cls::Dec) }
    } else { Some(k) }
}
pub open spec fn decimal(s: Seq<char>, k: int) -> Option<int> {
    match digits(s, k, Cls::Dec) {
        None => None,
        Some(e) => if ch(s, e, '.') {
            match digits(s, e + 1, Cls::Dec) { None => None, Some(e2) => exponent(s, e2) }
        } else { exponent(s, e) },
    }
}
pub open spec fn num(s: Seq<char>, k: int) -> Option<int> {
    let e = if ch(s, k, '0') && (ch(s, k + 1, 'x') || ch(s, k + 1, 'X')) { digits1(s, k + 2, Cls::Hex) }
        else if ch(s, k, '0') && (ch(s, k + 1, 'o') || ch(s, k + 1, 'O')) { digits1(s, k + 2, Cls::Oct) }
        else if ch(s, k, '0') && (ch(s, k + 1, 'b') || ch(s, k + 1, 'B')) { digits1(s, k + 2, Cls::Bin) }
        else if ch(s, k, '0') && k + 1 < s.len() && (is_dec(s[k + 1]) || s[k + 1] == '_') { None }
        else { decimal(s, k) };
    match e { Some(e) => if 0 <= e < s.len() && is_id_s(s[e]) { None } else { Some(e) }, None => None }
}
/// string literal body from k: (behind the closing quote, value)
pub open spec fn strlit(s: Seq<char>, k: int, d: char, acc: Seq<char>) -> Option<(int, Seq<char>)>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) { None }
    else if s[k] == '\\' {
        if k + 1 >= s.len() { None }
        else if s[k + 1] == '\r' && ch(s, k + 2, '\n') { strlit(s, k + 3, d, acc.push(s[k + 1]).push(s[k + 2])) }
        else { strlit(s, k + 2, d, acc.push(s[k + 1])) }
    }
    else if s[k] == d { Some((k + 1, acc)) }
    else if s[k] == '\r' || s[k] == '\n' { None }
    else { strlit(s, k + 1, d, acc.push(s[k])) }
}
/// template characters from k: (behind the closing "`" or "${", value, closed by "${")
pub open spec fn tpl(s: Seq<char>, k: int, acc: Seq<char>, esc: bool) -> Option<(int, Seq<char>, bool)>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) { None }
    else if !esc && s[k] == '`' { Some((k + 1, acc, false)) }
    else if !esc && s[k] == '$' && k + 1 >= s.len() { None }
    else if !esc && s[k] == '$' && s[k + 1] == '{' { Some((k + 2, acc, true)) }
    else if s[k] == '\\' && !esc { tpl(s, k + 1, acc, true) }
    else { tpl(s, k + 1, acc.push(s[k]), false) }
}
/// behind the `]` of a class in a regular expression
pub open spec fn reclass(s: Seq<char>, k: int) -> Option<int>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) || is_lt(s[k]) { None }
    else if s[k] == ']' { Some(k + 1) }
    else if s[k] == '\\' {
        if k + 1 >= s.len() { None } else if is_lt(s[k + 1]) { reclass(s, k + 1) } else { reclass(s, k + 2) }
    }
    else { reclass(s, k + 1) }
}
/// behind the closing `/` of a regular expression
pub open spec fn rebody(s: Seq<char>, k: int) -> Option<int>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) || is_lt(s[k]) { None }
    else if s[k] == '/' { Some(k + 1) }
    else if s[k] == '\\' {
        if k + 1 >= s.len() { None } else if is_lt(s[k + 1]) { rebody(s, k + 1) } else { rebody(s, k + 2) }
    }
    else if s[k] == '[' {
        match reclass(s, k + 1) { Some(e) => if k < e <= s.len() { rebody(s, e) } else { None }, None => None }
    }
    else { rebody(s, k + 1) }
}
// ---------- identifiers ----------
pub open spec fn hexrun(s: Seq<char>, k: int) -> int
    decreases s.len() - k,
{
    if 0 <= k < s.len() && hex_digit(s[k]) >= 0 { hexrun(s, k + 1) } else { k }
}
/// unicode escape at k (the backslash): (behind it, the character)
pub open spec fn uesc_v(s: Seq<char>, k: int) -> Option<(int, int)> {
    if !(ch(s, k, '\\') && ch(s, k + 1, 'u') && k + 2 < s.len()) { None }
    else if s[k + 2] == '{' { cp_end(s, k + 2) }
    else { hex4(s, k + 2) }
}
pub open spec fn cp_end(s: Seq<char>, k: int) -> Option<(int, int)> {
    let e = hexrun(s, k + 1);
    if e > k + 1 && ch(s, e, '}') && hex_value(s.subrange(k + 1, e)) <= 0x10FFFF { Some((e + 1, hex_value(s.subrange(k + 1, e)))) } else { None }
}
pub open spec fn hex4(s: Seq<char>, k: int) -> Option<(int, int)> {
    if k + 4 <= s.len() && hex_digit(s[k]) >= 0 && hex_digit(s[k + 1]) >= 0 && hex_digit(s[k + 2]) >= 0 && hex_digit(s[k + 3]) >= 0 {
        Some((k + 4, hex_value(s.subrange(k, k + 4))))
    } else { None }
}
pub open spec fn uesc(s: Seq<char>, k: int) -> Option<(int, char)> {
    match uesc_v(s, k) {
        Some((e, v)) => if 0 <= v <= 0x10FFFF && is_scalar(v as u32) { Some((e, v as u32 as char)) } else { None },
        None => None,
    }
}
pub open spec fn ident(s: Seq<char>, k: int, acc: Seq<char>) -> Option<(int, Seq<char>)>
    decreases s.len() - k,
{
    if !(0 <= k < s.len()) { Some((k, acc)) }
    else if is_id_p(s[k]) { ident(s, k + 1, acc.push(s[k])) }
    else if s[k] == '\\' {
        match uesc(s, k) {
            Some((e, c)) => if k < e <= s.len() && (if acc.len() == 0 { is_id_s(c) } else { is_id_p(c) }) { ident(s, e, acc.push(c)) } else { None },
            None => None,
        }
    }
    else { Some((k, acc)) }
}

// ---------- tokens ----------
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub uninterp spec fn mk_parts(s: Seq<TemplatePart>) -> Vec<TemplatePart>;
/// A String (a Vec) is determined by its contents: capacity is not observable in this code.
pub broadcast axiom fn axiom_string(a: String)
    ensures #[trigger] mk_string(a@) == a;
pub broadcast axiom fn axiom_mk_string(s: Seq<char>)
    ensures (#[trigger] mk_string(s))@ == s;
pub broadcast axiom fn axiom_parts(a: Vec<TemplatePart>)
    ensures #[trigger] mk_parts(a@) == a;
pub broadcast axiom fn axiom_mk_parts(s: Seq<TemplatePart>)
    ensures (#[trigger] mk_parts(s))@ == s;
pub broadcast group group_mk { axiom_string, axiom_mk_string, axiom_parts, axiom_mk_parts }

pub open spec fn is_kw(w: Seq<char>) -> bool { exists|k: Keyword| #[trigger] crate::tables::Table::text(&k) == w }
pub open spec fn kw_of(w: Seq<char>) -> Keyword { choose|k: Keyword| #[trigger] crate::tables::Table::text(&k) == w }
pub open spec fn word(w: Seq<char>) -> TokenValue {
    if is_kw(w) { TokenValue::Keyword(kw_of(w)) } else { TokenValue::Identifier(mk_string(w)) }
}
pub proof fn lemma_word(w: Seq<char>, k: Keyword)
    requires crate::tables::Table::text(&k) == w,
    ensures word(w) == TokenValue::Keyword(k),
{
    assert(is_kw(w));
    crate::tables::lemma_keyword_inj(k, kw_of(w));
}
#[verifier::opaque]
pub open spec fn tplx(s: Seq<char>, k: int) -> Option<(Token, int, int)> {
    if ch(s, k, '}') { match tpl(s, k + 1, Seq::empty(), false) { Some(x) => Some((mk_tok(tplpart(x).0, false, s, k, x.0), k, x.0)), None => None } } else { None }
}
pub open spec fn tplpart(x: (int, Seq<char>, bool)) -> (TokenValue, int) {
    (if x.2 { TokenValue::TemplateMiddle(mk_string(x.1)) } else { TokenValue::TemplateTail(mk_string(x.1)) }, x.0)
}
pub open spec fn tplhead(x: (int, Seq<char>, bool)) -> (TokenValue, int) {
    (if x.2 { TokenValue::TemplateHead(mk_string(x.1)) }
     else { TokenValue::Literal(Literal::Template(LitTemplate { parts: mk_parts(seq![TemplatePart::String(mk_string(x.1))]) })) }, x.0)
}
#[verifier::opaque]
pub open spec fn retok(s: Seq<char>, k: int) -> Option<(TokenValue, int)> {
    match rebody(s, k + 1) { Some(e) => { let e2 = run_end(s, e, Cls::IdP); Some((TokenValue::Literal(Literal::Regexp(mk_string(s.subrange(k, e2)))), e2)) }, None => None }
}
#[verifier::opaque]
pub open spec fn numtok(s: Seq<char>, k: int) -> Option<(TokenValue, int)> {
    match num(s, k) { Some(e) => Some((TokenValue::Literal(Literal::Number(LitNumber { raw: mk_string(s.subrange(k, e)) })), e)), None => None }
}
#[verifier::opaque]
pub open spec fn strtok(s: Seq<char>, k: int) -> Option<(TokenValue, int)> {
    match strlit(s, k + 1, s[k], Seq::empty()) { Some((e, v)) => Some((TokenValue::Literal(Literal::String(LitString { value: mk_string(v), delimiter: s[k] })), e)), None => None }
}
#[verifier::opaque]
pub open spec fn tpltok(s: Seq<char>, k: int) -> Option<(TokenValue, int)> {
    match tpl(s, k + 1, Seq::empty(), false) { Some(x) => Some(tplhead(x)), None => None }
}
#[verifier::opaque]
pub open spec fn idtok(s: Seq<char>, k: int) -> Option<(TokenValue, int)> {
    match ident(s, k, Seq::empty()) { Some((e, w)) => Some((word(w), e)), None => None }
}
/// the token that starts exactly at k (no white space skipped) and the index behind it
pub open spec fn tokv(s: Seq<char>, k: int, regex: bool) -> Option<(TokenValue, int)> {
    if !(0 <= k < s.len()) { None }
    else if s[k] == '/' && regex { retok(s, k) }
    else if is_dec(s[k]) || (s[k] == '.' && 0 <= k + 1 < s.len() && is_dec(s[k + 1])) { numtok(s, k) }
    else if s[k] == '"' || s[k] == '\'' { strtok(s, k) }
    else if s[k] == '`' { tpltok(s, k) }
    else {
        match pt(s, k) {
            Some((p, n)) => Some((TokenValue::Punctuator(p), k + n)),
            None => if s[k] != '.' && (is_id_s(s[k]) || s[k] == '\\') { idtok(s, k) } else { None },
        }
    }
}
pub open spec fn mk_tok(v: TokenValue, f: bool, s: Seq<char>, i: int, j: int) -> Token {
    Token { value: v, first_on_line: f, span: Span { start: mpos(s, i) as usize, end: mpos(s, j) as usize } }
}
/// reading in the ordinary (not template) states: (token, its first character, the index behind it)
pub open spec fn lex(s: Seq<char>, k: int, f: bool, st: St) -> Option<(Token, int, int)>
    decreases s.len() - k,
{
    match skx(s, k, f, st.html) {
        None => None,
        Some((i, g)) => match tokv(s, i, st.regex) {
            None => None,
            Some((v, j)) => if g && v == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, j, '>') {
                let e = next_line(s, j);
                if st.html && k < e <= s.len() { lex(s, e, true, st) } else { None }
            } else { Some((mk_tok(v, g, s, i, j), i, j)) },
        },
    }
}
/// reading in any state
pub open spec fn lexs(s: Seq<char>, k: int, f: bool, st: St) -> Option<(Token, int, int)> {
    if st.template {
        tplx(s, k)
    } else { lex(s, k, f, st) }
}
pub open spec fn st_default() -> St { St { html: true, regex: false, template: false } }
pub open spec fn st_of(l: LexerState) -> St { St { html: l.html_comment_allowed, regex: l.regex_allowed, template: l.inside_template } }

// ---------- every piece makes progress and stays inside the text ----------
pub proof fn lemma_strlit(s: Seq<char>, k: int, d: char, acc: Seq<char>)
    requires 0 <= k,
    ensures strlit(s, k, d, acc) matches Some(x) ==> k < x.0 <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() {
        if s[k] == '\\' {
            if k + 1 < s.len() {
                if s[k + 1] == '\r' && ch(s, k + 2, '\n') { lemma_strlit(s, k + 3, d, acc.push(s[k + 1]).push(s[k + 2])); } else { lemma_strlit(s, k + 2, d, acc.push(s[k + 1])); }
            }
        } else if s[k] != d { lemma_strlit(s, k + 1, d, acc.push(s[k])); }
    }
}
pub proof fn lemma_tpl(s: Seq<char>, k: int, acc: Seq<char>, esc: bool)
    requires 0 <= k,
    ensures tpl(s, k, acc, esc) matches Some(x) ==> k < x.0 <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() { lemma_tpl(s, k + 1, acc, true); lemma_tpl(s, k + 1, acc.push(s[k]), false); }
}
pub proof fn lemma_reclass(s: Seq<char>, k: int)
    requires 0 <= k,
    ensures reclass(s, k) matches Some(x) ==> k < x <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() { lemma_reclass(s, k + 1); if k + 1 < s.len() { lemma_reclass(s, k + 2); } }
}
pub proof fn lemma_rebody(s: Seq<char>, k: int)
    requires 0 <= k,
    ensures rebody(s, k) matches Some(x) ==> k < x <= s.len(),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_rebody(s, k + 1); if k + 1 < s.len() { lemma_rebody(s, k + 2); }
        lemma_reclass(s, k + 1);
        match reclass(s, k + 1) { Some(e) => { lemma_rebody(s, e); }, None => {} }
    }
}
pub proof fn lemma_hexrun(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures k <= hexrun(s, k) <= s.len(), forall|i: int| k <= i < hexrun(s, k) ==> hex_digit(#[trigger] s[i]) >= 0,
        hexrun(s, k) < s.len() ==> hex_digit(s[hexrun(s, k)]) < 0,
    decreases s.len() - k,
{
    if k < s.len() && hex_digit(s[k]) >= 0 { lemma_hexrun(s, k + 1); }
}
pub proof fn lemma_uesc(s: Seq<char>, k: int)
    requires 0 <= k,
    ensures uesc_v(s, k) matches Some(x) ==> k < x.0 <= s.len(), uesc(s, k) matches Some(x) ==> k < x.0 <= s.len(),
{
    if k + 3 <= s.len() { lemma_hexrun(s, k + 3); }
}
pub proof fn lemma_ident(s: Seq<char>, k: int, acc: Seq<char>)
    requires 0 <= k <= s.len(),
    ensures ident(s, k, acc) matches Some(x) ==> k <= x.0 <= s.len() && (k < s.len() && (is_id_p(s[k]) || s[k] == '\\') ==> k < x.0),
    decreases s.len() - k,
{
    if k < s.len() {
        if is_id_p(s[k]) { lemma_ident(s, k + 1, acc.push(s[k])); }
        else if s[k] == '\\' {
            lemma_uesc(s, k);
            match uesc(s, k) { Some((e, c)) => { if e <= s.len() { lemma_ident(s, e, acc.push(c)); } }, None => {} }
        }
    }
}
pub proof fn lemma_num(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), is_dec(s[k]) || (s[k] == '.' && k + 1 < s.len() && is_dec(s[k + 1])),
    ensures num(s, k) matches Some(e) ==> k < e <= s.len(),
{
lemma_run(s, k, Cls::Dec); lemma_run(s, k + 1, Cls::Dec);
    assert forall|x: int, q: Cls| 0 <= x <= s.len() implies x <= #[trigger] run_end(s, x, q) <= s.len() by { lemma_run(s, x, q); }
}
/// an identifier start may be part of an identifier (Unicode: ID_Start is a subset of ID_Continue)
pub broadcast axiom fn axiom_id(c: char)
    ensures #[trigger] id_start(c) ==> id_continue(c);
pub proof fn lemma_tokv(s: Seq<char>, k: int, regex: bool)
    requires 0 <= k,
    ensures tokv(s, k, regex) matches Some(x) ==> k < x.1 <= s.len(),
{
    broadcast use axiom_id;
    reveal(retok); reveal(numtok); reveal(strtok); reveal(tpltok); reveal(idtok);
    if k < s.len() {
        lemma_rebody(s, k + 1);
        match rebody(s, k + 1) { Some(e) => { lemma_run(s, e, Cls::IdP); }, None => {} }
        if is_dec(s[k]) || (s[k] == '.' && 0 <= k + 1 < s.len() && is_dec(s[k + 1])) { lemma_num(s, k); }
        lemma_strlit(s, k + 1, s[k], Seq::empty());
        lemma_tpl(s, k + 1, Seq::empty(), false);
        lemma_ident(s, k, Seq::empty());
    }
}
pub proof fn lemma_mpos(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures 0 <= mpos(s, i), i < j ==> mpos(s, i) < mpos(s, j), i <= j ==> mpos(s, i) <= mpos(s, j), mpos(s, i) <= bpos(s, i), i < j ==> bpos(s, i) < mpos(s, j),
    decreases j,
{
    reveal(wpos); reveal_with_fuel(bsum, 2);
    if i < j { lemma_mpos(s, i, j - 1); } else if i > 0 { lemma_mpos(s, i - 1, i - 1); }
}
/// `n` characters fit in between the positions of their ends
pub proof fn lemma_room(s: Seq<char>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= s.len(),
    ensures 0 <= mpos(s, k), mpos(s, k) + n <= mpos(s, k + n) <= bpos(s, s.len() as int), bpos(s, k) + n <= bpos(s, k + n) <= bpos(s, s.len() as int),
    decreases n,
{
    reveal(wpos);
    if n > 0 { lemma_room(s, k, n - 1); lemma_mpos(s, k + n - 1, k + n); }
    lemma_mpos(s, k, k + n); lemma_bpos(s, k + n, s.len() as int); lemma_mpos(s, k + n, k + n);
}
pub proof fn lemma_bpos(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures bpos(s, i) <= bpos(s, j), bpos(s, 0) == 0,
    decreases j,
{
    if i < j { lemma_bpos(s, i, j - 1); }
}
pub proof fn lemma_bpos_ulen(s: Seq<char>)
    ensures bpos(s, s.len() as int) == ulen(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.subrange(1, s.len() as int);
        lemma_bpos_ulen(t);
        assert(s.skip(1) =~= t);
        lemma_bsum_skip::<char, CharIndices<'static>>(s, 1, s.len() - 1);
        reveal_with_fuel(bsum, 2);
    }
}
pub broadcast proof fn lemma_sub_push(s: Seq<char>, a: int, b: int, c: char)
    requires 0 <= a <= b < s.len(), c == s[b],
    ensures #[trigger] s.subrange(a, b).push(c) == s.subrange(a, b + 1),
{ assert(s.subrange(a, b).push(c) =~= s.subrange(a, b + 1)); }
pub broadcast proof fn lemma_sub_cat(s: Seq<char>, a: int, b: int, e: int)
    requires 0 <= a <= b <= e <= s.len(),
    ensures #[trigger] (s.subrange(a, b) + s.subrange(b, e)) == s.subrange(a, e),
{ assert(s.subrange(a, b) + s.subrange(b, e) =~= s.subrange(a, e)); }
pub broadcast proof fn lemma_sub_empty(s: Seq<char>, a: int)
    requires 0 <= a <= s.len(),
    ensures #[trigger] s.subrange(a, a) == Seq::<char>::empty(),
{ assert(s.subrange(a, a) =~= Seq::<char>::empty()); }
pub broadcast proof fn lemma_hex_nonneg(s: Seq<char>)
    requires all_hex(s),
    ensures #[trigger] hex_value(s) >= 0,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies hex_digit(#[trigger] s.drop_last()[i]) >= 0 by { assert(s.drop_last()[i] == s[i]); }
        lemma_hex_nonneg(s.drop_last());
        assert(hex_digit(s[s.len() - 1]) >= 0);
    }
}
pub proof fn lemma_hex4(s: Seq<char>)
    requires all_hex(s), s.len() == 4,
    ensures 0 <= hex_value(s) <= 0xffff,
{
    reveal_with_fuel(hex_value, 5);
    assert(forall|i: int| 0 <= i < s.len() ==> 0 <= hex_digit(#[trigger] s[i]) < 16);
    let a = s.drop_last(); let b = a.drop_last(); let c = b.drop_last(); let d = c.drop_last();
    assert(a.last() == s[2] && b.last() == s[1] && c.last() == s[0] && d.len() == 0);
}
pub broadcast group group_lex { axiom_string, axiom_mk_string, axiom_parts, axiom_mk_parts, lemma_sub_push, lemma_sub_cat, lemma_sub_empty, lemma_run, crate::rd::lemma_take_full }

/// reading again from the start of a token yields the same token
pub proof fn lemma_lex(s: Seq<char>, k: int, f: bool, st: St)
    requires 0 <= k <= s.len(), mpos(s, s.len() as int) <= usize::MAX,
    ensures lex(s, k, f, st) matches Some(x) ==> {
        &&& k <= x.1 < x.2 <= s.len()
        &&& x.0.span.start == mpos(s, x.1) && x.0.span.end == mpos(s, x.2)
        &&& lex(s, x.1, x.0.first_on_line, st) == Some(x)
    },
    decreases s.len() - k,
{
    lemma_skx(s, k, f, st.html);
    match skx(s, k, f, st.html) {
        None => {},
        Some((i, g)) => {
            lemma_tokv(s, i, st.regex);
            match tokv(s, i, st.regex) {
                None => {},
                Some((v, j)) => {
                    lemma_mpos(s, i, j); lemma_mpos(s, j, s.len() as int);
                    assert(skx(s, i, g, st.html) == Some((i, g)));
                    if g && v == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, j, '>') {
                        let e = next_line(s, j);
                        lemma_next_line(s, j);
                        if st.html && k < e { lemma_lex(s, e, true, st); }
                    }
                },
            }
        },
    }
}
/// no token is an array or object literal, a whole template is text only, an identifier is not a keyword
pub proof fn lemma_lit_tok(s: Seq<char>, k: int, f: bool, st: St)
    requires 0 <= k <= s.len(),
    ensures lexs(s, k, f, st) matches Some(x) ==> crate::ps::plain_tok(x.0.value),
    decreases s.len() - k,
{
    broadcast use group_mk;
    reveal(crate::ps::all_text); reveal(crate::ps::not_kw);
    reveal(tplx); reveal(retok); reveal(numtok); reveal(strtok); reveal(tpltok); reveal(idtok);
    if !st.template {
        lemma_skx(s, k, f, st.html);
        match skx(s, k, f, st.html) {
            None => {},
            Some((i, g)) => {
                lemma_tokv(s, i, st.regex);
                match tokv(s, i, st.regex) {
                    None => {},
                    Some((v, j)) => {
                        if g && v == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, j, '>') {
                            let e = next_line(s, j);
                            lemma_next_line(s, j);
                            if st.html && k < e { lemma_lit_tok(s, e, true, st); }
                        }
                    },
                }
            },
        }
    }
}
pub proof fn lemma_lexs(s: Seq<char>, k: int, f: bool, st: St)
    requires 0 <= k <= s.len(), mpos(s, s.len() as int) <= usize::MAX,
    ensures lexs(s, k, f, st) matches Some(x) ==> {
        &&& k <= x.1 < x.2 <= s.len()
        &&& x.0.span.start == mpos(s, x.1) && x.0.span.end == mpos(s, x.2)
        &&& lexs(s, x.1, x.0.first_on_line, st) == Some(x)
    },
{
    if st.template {
        reveal(tplx);
        if ch(s, k, '}') {
            lemma_tpl(s, k + 1, Seq::empty(), false);
            match tpl(s, k + 1, Seq::empty(), false) { Some(x) => { lemma_mpos(s, k, x.0); lemma_mpos(s, x.0, s.len() as int); }, None => {} }
        }
    } else { lemma_lex(s, k, f, st); }
}

/// re-reading a token that is not a literal yields a literal only where a regular expression stands
pub proof fn lemma_re(s: Seq<char>, i: int, st: St, x: Token, st2: St, y: Token)
    requires
        0 <= i <= s.len(), mpos(s, s.len() as int) <= usize::MAX, !st.regex, !st.template,
        lexs(s, i, x.first_on_line, st) matches Some(a) && a.0 == x, x.span.start == mpos(s, i),
        lexs(s, i, x.first_on_line, st2) matches Some(a) && a.0 == y,
    ensures y.span.start == x.span.start, !(x.value is Literal) ==> (y.value matches TokenValue::Literal(l) ==> l is Regexp),
{
    lemma_lexs(s, i, x.first_on_line, st);
    let a = lexs(s, i, x.first_on_line, st)->Some_0;
    if i < a.1 { lemma_mpos(s, i, a.1); }
    reveal(tplx); reveal(retok);
    if !st2.template {
        lemma_skx(s, i, x.first_on_line, st.html);
        reveal(skx);
        assert(a.1 == i);
        lemma_skip_here(s, i, x.first_on_line, st);
        assert forall|g: bool| #[trigger] sk(s, i, g, st.html) == Some((i, g)) by { assert(skx(s, i, g, st.html) == Some((i, g))); }
        lemma_sk_here(s, i, x.first_on_line, st.html, st2.html);
        assert(tokv(s, i, false) == Some((x.value, a.2)));
        assert(skx(s, i, x.first_on_line, st2.html) == Some((i, x.first_on_line)));
        if !(s[i] == '/' && st2.regex) {
            assert(tokv(s, i, st2.regex) == Some((x.value, a.2)));
            if x.first_on_line && x.value == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, a.2, '>') { assert(false); }
            assert(y.value == x.value);
        } else {
            assert(y.value->Literal_0 is Regexp);
        }
    }
}
pub proof fn lemma_sk_here(s: Seq<char>, i: int, f: bool, h: bool, h2: bool)
    requires 0 <= i <= s.len(), forall|g: bool| #[trigger] sk(s, i, g, h) == Some((i, g)),
    ensures sk(s, i, f, h2) == Some((i, f)),
{
    assert(sk(s, i, false, h) == Some((i, false)));
    if i < s.len() {
        if is_lt(s[i]) { lemma_sk(s, i + 1, true, h); }
        else if is_ws(s[i]) { lemma_sk(s, i + 1, false, h); }
        else if ch(s, i, '/') && ch(s, i + 1, '/') { if i + 2 <= s.len() { lemma_next_line(s, i + 2); lemma_sk(s, next_line(s, i + 2), true, h); } }
        else if ch(s, i, '<') && ch(s, i + 1, '!') && html_open(s, i) { lemma_next_line(s, i + 2); lemma_sk(s, next_line(s, i + 2), true, h); }
        else if ch(s, i, '/') && ch(s, i + 1, '*') { lemma_comment_end(s, i + 2); let e = comment_end(s, i + 2); if i < e { lemma_sk(s, e, false || has_lt(s, i + 2, e - 2), h); } }
    }
}
/// a token that starts where reading began: nothing was skipped
pub proof fn lemma_skip_here(s: Seq<char>, i: int, f: bool, st: St)
    requires 0 <= i <= s.len(), mpos(s, s.len() as int) <= usize::MAX, !st.template, lex(s, i, f, st) matches Some(a) && a.1 == i,
    ensures
        !(lex(s, i, f, st)->Some_0.0.first_on_line && lex(s, i, f, st)->Some_0.0.value == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, lex(s, i, f, st)->Some_0.2, '>')),
        skx(s, i, f, st.html) == Some((i, lex(s, i, f, st)->Some_0.0.first_on_line)), tokv(s, i, st.regex) == Some((lex(s, i, f, st)->Some_0.0.value, lex(s, i, f, st)->Some_0.2)),
{
    lemma_skx(s, i, f, st.html);
    let (j, g) = skx(s, i, f, st.html)->Some_0;
    lemma_tokv(s, j, st.regex);
    let (v, e) = tokv(s, j, st.regex)->Some_0;
    if g && v == TokenValue::Punctuator(Punctuator::DoubleMinus) && ch(s, e, '>') {
        let n = next_line(s, e);
        lemma_next_line(s, e);
        lemma_lex(s, n, true, st);
    }
}

impl<'a> Lexer<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.reader.wf() && self.reader.chars() == self.data@ && self.reader.base() == 0 && self.reader.lim() == ulen(self.s()) && ulen(self.s()) <= isize::MAX && bpos(self.s(), self.s().len() as int) <= isize::MAX
        &&& 0 <= self.k() <= self.s().len()
    }
    pub open spec fn s(&self) -> Seq<char> { self.data@ }
    pub open spec fn k(&self) -> int { self.reader.k() }
    pub open spec fn st(&self) -> St { st_of(self.state) }
    /// everything but the place in the text and `first_on_line` is as in `o`
    pub open spec fn same(&self, o: Lexer<'a>) -> bool { self.wf() && self.data == o.data && self.state == o.state && self.reader.lim() == o.reader.lim() }
    /// everything but the place in the text is as in `o`
    pub open spec fn same1(&self, o: Lexer<'a>) -> bool { self.same(o) && self.first_on_line == o.first_on_line && o.k() <= self.k() }
    /// the token read
    pub open spec fn read_t(&self, o: Lexer<'a>, r: core::result::Result<Token, error::Error>, w: Option<(Token, int, int)>) -> bool {
        &&& r is Ok <==> w is Some
        &&& r matches Ok(t) ==> (w matches Some(x) && x.0 == t && x.2 == self.k() && o.k() <= x.1)
    }
    /// a piece of a number read
    pub open spec fn read_n(&self, o: Lexer<'a>, r: core::result::Result<String, error::Error>, w: Option<int>) -> bool {
        &&& r is Ok <==> w is Some
        &&& r matches Ok(v) ==> w == Some(self.k()) && v@ == self.s().subrange(o.k(), self.k())
    }
    /// the value after reading a token value
    pub open spec fn read_v(&self, o: Lexer<'a>, r: core::result::Result<TokenValue, error::Error>, w: Option<(TokenValue, int)>) -> bool {
        &&& r is Ok <==> w is Some
        &&& r matches Ok(v) ==> w == Some((v, self.k()))
    }
}

// ---------- facts used by the parser ----------
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f }
pub proof fn lemma_ascii_pos(s: Seq<char>, k: int)
    requires ascii(s), 0 <= k <= s.len(),
    ensures bpos(s, k) == k, mpos(s, k) == k,
    decreases k,
{
    reveal(wpos);
    if k > 0 { lemma_ascii_pos(s, k - 1); }
}
pub proof fn lemma_ascii_boundary(s: Seq<char>, n: int)
    requires ascii(s), 0 <= n <= s.len(),
    ensures boundary(s, n), after(s, n) == s.skip(n), ulen(s) == s.len(), ascii(s.skip(n)),
    decreases s.len(),
{
    if s.len() == 0 { assert(s.skip(n) =~= s); }
    else {
        let t = s.subrange(1, s.len() as int);
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as u32 <= 0x7f by { assert(t[i] == s[i + 1]); }
        if n > 0 { lemma_ascii_boundary(t, n - 1); assert(t.skip(n - 1) =~= s.skip(n)); } else { lemma_ascii_boundary(t, 0); assert(s.skip(0) =~= s); }
    }
}

/// Positions the lexer can be moved to (ASCII texts: see the note on positions after non-ASCII characters).
pub open spec fn seek_to<'a>(l: Lexer<'a>, pos: crate::vx::io::SeekFrom) -> int {
    match pos {
        crate::vx::io::SeekFrom::Start(o) => o as int,
        crate::vx::io::SeekFrom::End(o) => l.s().len() + o,
        crate::vx::io::SeekFrom::Current(o) => l.k() + o,
    }
}
impl<'a> crate::vx::io::SeekSpec for Lexer<'a> {
    open spec fn seek_req(&self, pos: crate::vx::io::SeekFrom) -> bool {
        self.wf() && ascii(self.s()) && 0 <= seek_to(*self, pos) <= self.s().len()
    }
    open spec fn seek_ens(&self, o: &Self, pos: crate::vx::io::SeekFrom, r: crate::vx::io::Result<u64>) -> bool {
        &&& self.same(*o) && self.k() == seek_to(*o, pos) && self.first_on_line
        &&& r is Ok && r->Ok_0 == self.k()
    }
}
impl<'a> VxRd<Token> for Lexer<'a> {
    open spec fn rd_inv(&self) -> bool { self.wf() }
    open spec fn rd_lim(&self) -> int { self.reader.lim() }
    open spec fn rd_off(&self) -> int { mpos(self.s(), self.k()) }
    open spec fn rd_tok() -> bool { true }
    open spec fn rd_rest(&self) -> Seq<Token> { Seq::empty() }
    open spec fn rd_w(t: Token) -> int { 0 }
    open spec fn rd_b(t: Token) -> int { 0 }
    open spec fn rd_s(t: Token) -> int { t.span.start as int }
    open spec fn rd_e(t: Token) -> int { t.span.end as int }
    open spec fn rd_src(&self) -> (Seq<char>, St) { (self.s(), self.st()) }
    open spec fn rd_fut(&self) -> Option<Token> { match lexs(self.s(), self.k(), self.first_on_line, self.st()) { Some(x) => Some(x.0), None => None } }
    open spec fn rd_ok(src: (Seq<char>, St), t: Token) -> bool {
        exists|i: int| 0 <= i < src.0.len() && #[trigger] mpos(src.0, i) == t.span.start
            && (lexs(src.0, i, t.first_on_line, src.1) matches Some(x) && x.0 == t)
    }
    open spec fn rd_cur(&self) -> (int, bool) { (self.rd_off(), self.first_on_line) }
    open spec fn rd_at(t: Token) -> (int, bool) { (t.span.start as int, t.first_on_line) }
    open spec fn rd_re(src: (Seq<char>, St), cur: (int, bool), st: St, t: Token) -> bool {
        exists|i: int| 0 <= i <= src.0.len() && #[trigger] mpos(src.0, i) == cur.0 && (lexs(src.0, i, cur.1, st) matches Some(x) && x.0 == t)
    }
    open spec fn rd_can_rewind(&self, t: Token) -> bool { ascii(self.s()) && t.span.start <= self.s().len() }
}
}
}
