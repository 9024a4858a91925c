verus! {
pub mod ps {
use vstd::prelude::*;
use crate::vx::*;
use crate::rd::*;
use crate::fajt_common::io::*;
use crate::fajt_lexer::token::*;
use crate::fajt_lexer::LexerState;
use crate::fajt_parser::*;
use crate::fajt_parser::error::*;

/// every token of the text can be rewound to (true for ASCII texts; known finding otherwise)
#[verifier::opaque]
pub open spec fn all_rewind<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(src: (Seq<char>, St), lim: int) -> bool {
    forall|i: I, t: Token| i.rd_src() == src && I::rd_s(t) <= lim ==> #[trigger] i.rd_can_rewind(t)
}
#[verifier::opaque]
pub open spec fn tok_items<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>() -> bool {
    &&& I::rd_tok()
    &&& forall|t: Token| #[trigger] I::rd_s(t) == t.span.start
    &&& forall|t: Token| #[trigger] I::rd_e(t) == t.span.end
}
/// re-reading a token reads from where it starts; one that is not a literal gives a literal only where a regular expression stands
#[verifier::opaque]
pub open spec fn re_regex<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(src: (Seq<char>, St)) -> bool {
    forall|x: Token, st: St, y: Token| I::rd_ok(src, x) && #[trigger] I::rd_re(src, I::rd_at(x), st, y) ==> y.span.start == x.span.start && (!(x.value is Literal) ==> (y.value matches TokenValue::Literal(l) ==> l is Regexp))
}
/// no token is an array or object literal, a whole template is text only, an identifier is not a keyword
pub open spec fn plain_tok(v: TokenValue) -> bool {
    match v {
        TokenValue::Literal(l) => plain_lit(l),
        TokenValue::Identifier(n) => not_kw(n@),
        _ => true,
    }
}
pub open spec fn plain_lit(l: crate::fajt_ast::Literal) -> bool {
    match l {
        crate::fajt_ast::Literal::Template(t) => all_text(t),
        _ => !(l is Array) && !(l is Object),
    }
}
#[verifier::opaque]
pub open spec fn all_text(t: crate::fajt_ast::LitTemplate) -> bool { forall|i: int| 0 <= i < t.parts@.len() ==> #[trigger] t.parts@[i] is String }
#[verifier::opaque]
pub open spec fn not_kw(n: Seq<char>) -> bool { !crate::lexspec::is_kw(n) }
#[verifier::opaque]
pub open spec fn lit_toks<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(src: (Seq<char>, St)) -> bool {
    forall|x: Token| #[trigger] I::rd_ok(src, x) ==> plain_tok(x.value)
}
/// what can be seen of the reader from the parser
#[verifier::opaque]
pub open spec fn rwf<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>) -> bool {
    &&& r.wf()
    &&& tok_items::<I>()
    &&& all_rewind::<I>(r.src(), r.lim())
    &&& re_regex::<I>(r.src())
    &&& lit_toks::<I>(r.src())
}
pub open spec fn tlog_end(l: Seq<Token>) -> int { if l.len() == 0 { 0 } else { l.last().span.end as int } }
pub open spec fn tlog_ok(l: Seq<Token>) -> bool
    decreases l.len(),
{
    l.len() == 0 || (tlog_ok(l.drop_last()) && tlog_end(l.drop_last()) <= l.last().span.start < l.last().span.end)
}

/// The parser as its contracts see it.
pub struct V {
    /// tokens consumed and not given back
    pub lg: Seq<Token>,
    pub cur: Option<Token>,
    pub nxt: Option<Token>,
    /// rewound and nothing consumed since
    pub stale: bool,
    /// the current token was read in the default state
    pub dfl: bool,
    pub src: (Seq<char>, St),
    pub lim: int,
}
impl V {
    pub open spec fn end(self) -> int { tlog_end(self.lg) }
    pub open spec fn pos(self) -> int { if self.cur is Some { self.cur->Some_0.span.start as int } else { self.end() } }
    pub open spec fn same(self, o: V) -> bool { self.src == o.src && self.lim == o.lim }
    /// unchanged but for what a failed read may change
    pub open spec fn idle(self, o: V) -> bool { self.lg == o.lg && self.cur == o.cur && self.nxt == o.nxt && self.stale == o.stale && self.dfl == o.dfl && self.same(o) }
    #[verifier::opaque]
    pub open spec fn ext0(self, o: V) -> bool { log_ext0(o.lg, self.lg, o.pos()) }
    /// moved forward from `o`, or back to it
    pub open spec fn fwd(self, o: V) -> bool {
        &&& self.same(o)
        &&& self.ext0(o)
        &&& self.lg.len() >= o.lg.len()
    }
    /// ... and in a state to go on from
    pub open spec fn good(self, o: V) -> bool {
        &&& self.pos() >= o.pos()
        &&& self.stale ==> o.stale
        &&& self.dfl
    }
    /// something was consumed
    pub open spec fn moved(self, o: V) -> bool { !self.stale && self.lg.len() > o.lg.len() }
    pub open spec fn at(self, x: TokenValue) -> bool { self.cur matches Some(t) && t.value == x }
    /// the current token is the name `constructor`, or it as a string
    pub open spec fn ctor(self) -> bool { self.cur matches Some(t) && (match t.value { TokenValue::Identifier(n) => n@ == "constructor"@, TokenValue::Literal(crate::fajt_ast::Literal::String(s)) => s.value@ == "constructor"@, _ => false }) }
    pub open spec fn at_objarr(self) -> bool { self.at(P_SQ()) || self.at(P_BR()) }
    pub open spec fn nxt_at(self, x: TokenValue) -> bool { self.nxt matches Some(t) && t.value == x }
    /// the view after going back to the token `t`
    pub open spec fn back(self, t: Token) -> V { V { lg: tlog_upto(self.lg, t.span.start as int), cur: Some(t), stale: true, dfl: true, ..self } }
    /// facts about the view every caller may use
    pub open spec fn ok(self) -> bool {
        &&& 0 <= self.end() <= self.pos()
        &&& self.lim <= usize::MAX
        &&& !self.stale || self.cur is Some ==> self.end() <= self.lim
        &&& self.cur matches Some(t) ==> t.span.start < t.span.end <= self.lim && self.end() <= t.span.start
        &&& self.nxt matches Some(t) ==> t.span.start < t.span.end <= self.lim && self.end() <= t.span.start
        &&& self.cur matches Some(t) ==> (self.nxt matches Some(u) ==> t.span.end <= u.span.start)
    }
    /// one token consumed
    pub open spec fn ate(self, o: V) -> bool {
        &&& o.cur is Some
        &&& self.lg == o.lg.push(o.cur->Some_0)
        &&& self.cur == o.nxt
        &&& !self.stale && self.dfl
    }
}
impl TokenValue {
    pub open spec fn plain(self) -> bool { self is Punctuator || self is Keyword }
}
pub open spec fn log_ext0(p: Seq<Token>, l: Seq<Token>, lb: int) -> bool {
    &&& p.len() <= l.len() && l.take(p.len() as int) =~= p
    &&& l.len() > p.len() ==> lb <= l[p.len() as int].span.start
}
pub open spec fn view<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>) -> V {
    V {
        lg: r.log(),
        cur: if r.current is Ok { Some(r.current->Ok_0.1) } else { None },
        nxt: if r.next is Ok { Some(r.next->Ok_0.1) } else { None },
        stale: r.vx_g@.stale,
        dfl: r.vx_g@.dfl,
        src: r.src(),
        lim: r.lim(),
    }
}
pub broadcast proof fn lemma_fwd(a: V, b: V, c: V)
    requires #[trigger] b.ext0(a), #[trigger] c.ext0(b), b.pos() >= a.pos() || c.lg == b.lg,
    ensures c.ext0(a),
{
    reveal(V::ext0);
    let n = a.lg.len() as int;
    assert(c.lg.take(n) =~= b.lg.take(n)) by { assert forall|i: int| 0 <= i < n implies c.lg[i] == b.lg[i] by { assert(c.lg.take(b.lg.len() as int)[i] == b.lg[i]); } }
    if c.lg.len() > n { if b.lg.len() > n { assert(c.lg.take(b.lg.len() as int)[n] == b.lg[n]); } }
}
pub broadcast proof fn lemma_fwd_refl(a: V, b: V)
    requires b.lg == a.lg,
    ensures #[trigger] b.ext0(a),
{ reveal(V::ext0); assert(b.lg.take(a.lg.len() as int) =~= a.lg); }
pub broadcast proof fn lemma_fwd_ate(a: V, b: V)
    requires b.ate(a),
    ensures #[trigger] b.ext0(a),
{ reveal(V::ext0); assert(b.lg.take(a.lg.len() as int) =~= a.lg); }
/// rewinding to where `a` stood gives back exactly what was consumed since
pub broadcast proof fn lemma_rewound<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(a: V, r: PeekReader<Token, I>, n: PeekReader<Token, I>)
    requires rwf(r), #[trigger] view(r).ext0(a), #[trigger] n.wf(), a.ok(), n.log() == log_upto::<Token, I>(r.log(), a.pos()),
    ensures n.log() == a.lg, view(n).ext0(a),
{
    reveal(rwf); reveal(tok_items); reveal(V::ext0); reveal(PeekReader::wf); reveal(PeekReader::tok_wf);
    lemma_upto::<Token, I>(a.lg, r.log(), a.pos());
    assert(view(n).lg.take(a.lg.len() as int) =~= a.lg);
}
pub broadcast proof fn lemma_reread<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(a: V, r: PeekReader<Token, I>, n: PeekReader<Token, I>)
    requires #[trigger] view(r).ext0(a), #[trigger] n.wf(), n.log() == r.log(),
    ensures view(n).ext0(a),
{ reveal(V::ext0); }
/// what a reader the parser holds looks like to the reader's own contracts
pub broadcast proof fn lemma_rwf_wf<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>)
    requires rwf(r),
    ensures #[trigger] r.wf(),
{ reveal(rwf); reveal(tok_items); }
pub broadcast proof fn lemma_rwf_tok<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>)
    requires #[trigger] rwf(r),
    ensures tok_items::<I>() && I::rd_tok(),
{ reveal(rwf); reveal(tok_items); }
pub broadcast proof fn lemma_rwf_s<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(t: Token)
    requires tok_items::<I>(),
    ensures #[trigger] I::rd_s(t) == t.span.start,
{ reveal(tok_items); }
pub broadcast proof fn lemma_rwf_e<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(t: Token)
    requires tok_items::<I>(),
    ensures #[trigger] I::rd_e(t) == t.span.end,
{ reveal(tok_items); }
pub broadcast proof fn lemma_can_rewind<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>, t: Token)
    requires rwf(r), t.span.start <= r.lim(),
    ensures #![trigger rwf(r), r.inner.rd_can_rewind(t)] r.inner.rd_can_rewind(t),
{ reveal(rwf); reveal(tok_items); reveal(PeekReader::wf); reveal(PeekReader::tok_wf); reveal(all_rewind); assert(I::rd_s(t) == t.span.start); }
/// a reader that is well-formed and stands over the same text
pub broadcast proof fn lemma_rwf_keep<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(o: PeekReader<Token, I>, n: PeekReader<Token, I>)
    requires #[trigger] rwf(o), #[trigger] n.wf(), n.src() == o.src(), n.lim() == o.lim(),
    ensures rwf(n) && view(n).ok(),
{
    reveal(rwf); reveal(tok_items);
    assert(rwf(n)) by { }
    lemma_view_ok(n);
}
pub proof fn lemma_view_ok<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(n: PeekReader<Token, I>)
    requires rwf(n),
    ensures view(n).ok(),
{
    reveal(rwf); reveal(tok_items); reveal(PeekReader::wf); reveal(PeekReader::tok_wf);
    lemma_log_end::<Token, I>(n.log());
    if n.current is Ok { let t = n.current->Ok_0.1; assert(I::rd_s(t) == t.span.start && I::rd_e(t) == t.span.end); }
    if n.next is Ok { let t = n.next->Ok_0.1; assert(I::rd_s(t) == t.span.start && I::rd_e(t) == t.span.end); }
    if n.log().len() > 0 { let t = n.log().last(); assert(I::rd_s(t) == t.span.start && I::rd_e(t) == t.span.end); }
}
pub broadcast proof fn lemma_rwf_rd_ok<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>, t: Token)
    requires rwf(r), view(r).dfl, view(r).cur == Some(t),
    ensures #![trigger rwf(r), I::rd_ok(r.src(), t)] I::rd_ok(r.src(), t),
{ reveal(rwf); reveal(tok_items); reveal(PeekReader::wf); reveal(PeekReader::tok_wf); }
pub broadcast proof fn lemma_lit_toks<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>)
    requires #[trigger] rwf(r), view(r).dfl,
    ensures view(r).cur matches Some(t) ==> plain_tok(t.value),
{ reveal(rwf); reveal(tok_items); reveal(PeekReader::wf); reveal(PeekReader::tok_wf); reveal(lit_toks); }
pub broadcast proof fn lemma_re_regex<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>, x: Token, st: St, y: Token)
    requires rwf(r), I::rd_ok(r.src(), x), I::rd_re(r.src(), I::rd_at(x), st, y),
    ensures #![trigger rwf(r), I::rd_re(r.src(), I::rd_at(x), st, y)] y.span.start == x.span.start && (!(x.value is Literal) ==> (y.value matches TokenValue::Literal(l) ==> l is Regexp)),
{ reveal(rwf); reveal(tok_items); reveal(re_regex); }
/// what was consumed has moved the position on
pub broadcast proof fn lemma_moved_pos<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(a: V, r: PeekReader<Token, I>)
    requires rwf(r), #[trigger] view(r).ext0(a), view(r).lg.len() > a.lg.len(),
    ensures view(r).end() > a.pos(),
{
    reveal(rwf); reveal(tok_items); reveal(V::ext0); reveal(PeekReader::wf); reveal(PeekReader::tok_wf);
    lemma_moved_end::<I>(r.log(), a.lg.len() as int);
}
proof fn lemma_moved_end<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(l: Seq<Token>, n: int)
    requires tok_items::<I>(), log_ok::<Token, I>(l), 0 <= n < l.len(),
    ensures tlog_end(l) > l[n].span.start,
    decreases l.len(),
{ reveal(tok_items);
    let d = l.drop_last();
    assert(I::rd_s(l.last()) == l.last().span.start && I::rd_e(l.last()) == l.last().span.end);
    if n < d.len() { lemma_moved_end::<I>(d, n); assert(d[n] == l[n]); assert(I::rd_e(d.last()) == d.last().span.end); }
}
/// going back to `t`
pub broadcast proof fn lemma_back<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(a: V, r: PeekReader<Token, I>, t: Token)
    requires rwf(r), #[trigger] view(r).ext0(a), a.ok(), a.cur == Some(t),
    ensures (#[trigger] view(r).back(t)).lg == a.lg, view(r).ext0(view(r).back(t)),
{
    reveal(rwf); reveal(tok_items); reveal(V::ext0); reveal(PeekReader::wf); reveal(PeekReader::tok_wf);
    lemma_tupto::<I>(view(r).lg, t.span.start as int);
    lemma_upto::<Token, I>(a.lg, r.log(), a.pos());
}
pub broadcast proof fn lemma_from_back(a: V, x: V, c: V, t: Token)
    requires #[trigger] c.ext0(x.back(t)), #[trigger] x.ext0(a), a.cur == Some(t), x.back(t).lg == a.lg,
    ensures c.ext0(a),
{ reveal(V::ext0); }
pub proof fn lemma_tupto<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(l: Seq<Token>, s: int)
    requires tok_items::<I>(),
    ensures tlog_upto(l, s) == log_upto::<Token, I>(l, s),
    decreases l.len(),
{ reveal(tok_items); if l.len() > 0 { lemma_tupto::<I>(l.drop_last(), s); } }
/// rewinding to `t`
pub broadcast proof fn lemma_rewound_back<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: PeekReader<Token, I>, n: PeekReader<Token, I>, t: Token)
    requires rwf(r), #[trigger] n.wf(), n.log() == log_upto::<Token, I>(r.log(), I::rd_s(t)),
    ensures view(n).lg == (#[trigger] view(r).back(t)).lg, view(n).ext0(view(r).back(t)),
{
    reveal(rwf); reveal(tok_items);
    lemma_tupto::<I>(view(r).lg, t.span.start as int);
    lemma_fwd_refl(view(r).back(t), view(n));
}
pub open spec fn tlog_upto(l: Seq<Token>, s: int) -> Seq<Token>
    decreases l.len(),
{
    if l.len() == 0 || l.last().span.end <= s { l } else { tlog_upto(l.drop_last(), s) }
}
/// an object or array literal
pub open spec fn objarr(e: crate::fajt_ast::Expr) -> bool { e matches crate::fajt_ast::Expr::Literal(l) && (l.literal is Object || l.literal is Array) }
pub open spec fn lit_of(e: crate::fajt_ast::Expr) -> Option<crate::fajt_ast::Literal> { if e is Literal { Some(e->Literal_0.literal) } else { None } }
pub open spec fn rdok<I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>>(r: &PeekReader<Token, I>, t: Token) -> bool { I::rd_ok(r.src(), t) }
pub open spec fn P_DOT() -> TokenValue { TokenValue::Punctuator(Punctuator::Dot) }
pub open spec fn P_SQ() -> TokenValue { TokenValue::Punctuator(Punctuator::BraceOpen) }
pub open spec fn K_STATIC() -> TokenValue { TokenValue::Keyword(Keyword::Static) }
pub open spec fn P_BR() -> TokenValue { TokenValue::Punctuator(Punctuator::BracketOpen) }
pub open spec fn P_OPT() -> TokenValue { TokenValue::Punctuator(Punctuator::QuestionMarkDot) }
/// a token that may be an identifier in a context with these conditions
#[verifier::opaque]
pub open spec fn id_tok(t: Token, in_await: bool, in_yield: bool, strict: bool) -> bool {
    t.value is Identifier || (t.value is Keyword && crate::lx::ident_allowed(t.value->Keyword_0, in_await, in_yield, strict))
}
pub open spec fn idc(t: Token, c: Context) -> bool { id_tok(t, c.is_await, c.is_yield, c.is_strict) }
pub open spec fn arrow(e: Error) -> bool { e.kind is ArrowFunctionNotAllowed }
/// what `Error::from` makes of a lexer error
pub open spec fn from_post(e: crate::fajt_lexer::error::Error, r: Error) -> bool { !arrow(r) }
/// the meaning of `?` in Rust: the error goes through `From::from`
pub broadcast axiom fn axiom_question(e: crate::fajt_lexer::error::Error, r: Error)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<Error, crate::fajt_lexer::error::Error>(e, r),
    ensures from_post(e, r);
pub broadcast axiom fn axiom_question_ref(e: &crate::fajt_lexer::error::Error, r: Error)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<Error, &crate::fajt_lexer::error::Error>(e, r),
    ensures from_post(*e, r);
pub broadcast group group_ps { crate::vx::axiom_into_same, crate::vx::axiom_into_box, crate::vx::axiom_into_box_obeys, axiom_question, axiom_question_ref, lemma_rwf_wf, lemma_rwf_tok, lemma_rwf_s, lemma_rwf_e, lemma_rwf_keep, lemma_fwd, lemma_fwd_refl, lemma_fwd_ate, crate::rd::axiom_st }
/// going back, reading again
pub broadcast group group_back { lemma_can_rewind, lemma_rwf_rd_ok, lemma_rewound, lemma_reread, lemma_re_regex, lemma_back, lemma_from_back, lemma_rewound_back }

// ---- the lexer as the parser's reader ----
pub broadcast proof fn lemma_lexer_rd<'b>(l: crate::fajt_lexer::Lexer<'b>)
    requires #[trigger] l.wf(),
    ensures l.rd_off() >= 0, 0 <= l.rd_lim() <= usize::MAX, l.rd_inv(),
{ crate::lexspec::lemma_mpos(l.s(), 0, l.k()); lemma_ulen_nonneg(l.s()); crate::lexspec::lemma_mpos(l.s(), l.k(), l.k()); }
/// a peek reader over the lexer is what the parser expects
pub broadcast proof fn lemma_lexer_rwf<'b>(r: PeekReader<Token, crate::fajt_lexer::Lexer<'b>>)
    requires #[trigger] r.wf(), crate::lexspec::ascii(r.src().0), !r.src().1.regex, !r.src().1.template,
    ensures rwf(r), view(r).ok(),
{
    reveal(rwf); reveal(tok_items); reveal(re_regex); reveal(lit_toks); reveal(all_rewind); reveal(PeekReader::wf);
    let s = r.src().0; let n = s.len() as int;
    let l = r.inner;
    assert(l.wf());
    crate::lexspec::lemma_bpos_ulen(s);
    crate::lexspec::lemma_mpos(s, n, n);
    crate::lexspec::lemma_ascii_pos(s, n);
    assert forall|i: crate::fajt_lexer::Lexer<'b>, t: Token| i.rd_src() == r.src() && <crate::fajt_lexer::Lexer<'b> as VxRd<Token>>::rd_s(t) <= r.lim() implies #[trigger] i.rd_can_rewind(t) by {
        reveal(PeekReader::tok_wf);
    }
    assert forall|x: Token, st: St, y: Token| <crate::fajt_lexer::Lexer<'b> as VxRd<Token>>::rd_ok(r.src(), x) && #[trigger] <crate::fajt_lexer::Lexer<'b> as VxRd<Token>>::rd_re(r.src(), <crate::fajt_lexer::Lexer<'b> as VxRd<Token>>::rd_at(x), st, y) implies y.span.start == x.span.start && (!(x.value is Literal) ==> (y.value matches TokenValue::Literal(li) ==> li is Regexp)) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] crate::lexspec::mpos(s, i) == x.span.start && (crate::lexspec::lexs(s, i, x.first_on_line, r.src().1) matches Some(a) && a.0 == x);
        let j = choose|j: int| 0 <= j <= s.len() && #[trigger] crate::lexspec::mpos(s, j) == x.span.start && (crate::lexspec::lexs(s, j, x.first_on_line, st) matches Some(a) && a.0 == y);
        crate::lexspec::lemma_ascii_pos(s, i); crate::lexspec::lemma_ascii_pos(s, j);
        crate::lexspec::lemma_re(s, i, r.src().1, x, st, y);
    }
    assert forall|x: Token| #[trigger] <crate::fajt_lexer::Lexer<'b> as VxRd<Token>>::rd_ok(r.src(), x) implies plain_tok(x.value) by {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] crate::lexspec::mpos(s, i) == x.span.start && (crate::lexspec::lexs(s, i, x.first_on_line, r.src().1) matches Some(a) && a.0 == x);
        crate::lexspec::lemma_lit_tok(s, i, x.first_on_line, r.src().1);
    }
    lemma_view_ok(r);
}
pub broadcast group group_entry { lemma_lexer_rd, lemma_lexer_rwf }

impl<'a, I> Parser<'a, I> where I: PeekRead<Token, Error = crate::fajt_lexer::error::Error>, I: ReReadWithState<Token, State = LexerState, Error = crate::fajt_lexer::error::Error> {
    pub open spec fn v(&self) -> V { view(*self.reader) }
    pub open spec fn pwf(&self) -> bool { rwf(*self.reader) && self.v().ok() }
    /// what no parser function changes
    #[verifier::prophetic]
    pub open spec fn keep(&self, o: Self) -> bool {
        &&& self.context == o.context
        &&& self.source_type == o.source_type
        &&& *final(self.reader) == *final(o.reader)
    }
}
}
}

verus! { pub mod ps2 { use vstd::prelude::*;
pub open spec fn is_block(s: crate::fajt_ast::Stmt) -> bool { s is Block }
pub open spec fn str_tok(t: crate::fajt_lexer::token::Token) -> bool { t.value matches crate::fajt_lexer::token::TokenValue::Literal(l) && l is String }
} }
