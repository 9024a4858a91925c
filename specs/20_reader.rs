verus! {
pub mod rd {
use vstd::prelude::*;
use crate::vx::*;
use crate::fajt_common::io::*;
use std::str::CharIndices;

pub struct St { pub html: bool, pub regex: bool, pub template: bool }

/// Ghost view of a stream of items (added as a supertrait of PeekRead and ReReadWithState).
/// A stream is either a token stream (`rd_tok`: items carry their own span) or a character stream
/// (`rd_rest`: the items still to come, `rd_w`/`rd_b`: how far one item moves the reported / the real position).
pub trait VxRd<T>: Sized {
    spec fn rd_inv(&self) -> bool;
    /// upper limit of every position reported; constant
    spec fn rd_lim(&self) -> int;
    spec fn rd_off(&self) -> int;
    spec fn rd_tok() -> bool;
    spec fn rd_rest(&self) -> Seq<T>;
    spec fn rd_w(t: T) -> int;
    spec fn rd_b(t: T) -> int;
    spec fn rd_s(t: T) -> int;
    spec fn rd_e(t: T) -> int;
    /// the text and lexer state behind the stream; constant
    spec fn rd_src(&self) -> (Seq<char>, St);
    /// what the next read yields (None: an error)
    spec fn rd_fut(&self) -> Option<T>;
    /// `t` is what reading at its own start yields
    spec fn rd_ok(src: (Seq<char>, St), t: T) -> bool;
    /// where the stream stands; where it stood when it yielded `t`
    spec fn rd_cur(&self) -> (int, bool);
    spec fn rd_at(t: T) -> (int, bool);
    /// `t` is what reading at `cur` in the state `st` yields
    spec fn rd_re(src: (Seq<char>, St), cur: (int, bool), st: St, t: T) -> bool;
    /// rewinding before `t` is possible
    spec fn rd_can_rewind(&self, t: T) -> bool;
}
/// the state behind a value of some state type (given below for LexerState)
pub uninterp spec fn st_any<S>(s: S) -> St;
pub broadcast axiom fn axiom_st(l: crate::fajt_lexer::LexerState)
    ensures #[trigger] st_any(l) == crate::lexspec::st_of(l);

pub open spec fn u16len(c: char) -> int { if (c as u32) < 0x10000 { 1 } else { 2 } }

impl<'a> VxRd<char> for CharIndices<'a> {
    open spec fn rd_inv(&self) -> bool { ci_off(*self) >= 0 && ci_off(*self) + ulen(ci_rest(*self)) <= isize::MAX }
    open spec fn rd_lim(&self) -> int { ci_off(*self) + ulen(ci_rest(*self)) }
    open spec fn rd_off(&self) -> int { ci_off(*self) }
    open spec fn rd_tok() -> bool { false }
    open spec fn rd_rest(&self) -> Seq<char> { ci_rest(*self) }
    open spec fn rd_w(t: char) -> int { u16len(t) }
    open spec fn rd_b(t: char) -> int { clen(t) }
    open spec fn rd_s(t: char) -> int { 0 }
    open spec fn rd_e(t: char) -> int { 0 }
    open spec fn rd_src(&self) -> (Seq<char>, St) { (Seq::empty(), St { html: false, regex: false, template: false }) }
    open spec fn rd_fut(&self) -> Option<char> { if ci_rest(*self).len() > 0 { Some(ci_rest(*self)[0]) } else { None } }
    open spec fn rd_ok(src: (Seq<char>, St), t: char) -> bool { false }
    open spec fn rd_cur(&self) -> (int, bool) { (0, false) }
    open spec fn rd_at(t: char) -> (int, bool) { (0, false) }
    open spec fn rd_re(src: (Seq<char>, St), cur: (int, bool), st: St, t: char) -> bool { false }
    open spec fn rd_can_rewind(&self, t: char) -> bool { false }
}

/// The contract of `next`, shared by `next` and `read_with_state`.
pub open spec fn next_post<T, I: VxRd<T>, E>(o: I, n: I, r: Result<(usize, T), E>) -> bool {
    &&& n.rd_inv() && n.rd_lim() == o.rd_lim() && n.rd_src() == o.rd_src()
    &&& r matches Ok(x) ==> 0 <= x.0 <= o.rd_lim()
    &&& I::rd_tok() ==> {
        &&& n.rd_off() >= o.rd_off()
        &&& r matches Ok(x) ==> o.rd_off() <= I::rd_s(x.1) < I::rd_e(x.1) == x.0 && I::rd_e(x.1) <= n.rd_off()
    }
    &&& !I::rd_tok() ==> {
        &&& r is Ok <==> o.rd_rest().len() > 0
        &&& r is Err ==> n.rd_off() == o.rd_off() && n.rd_rest() == o.rd_rest()
        &&& r matches Ok(x) ==> {
            &&& x.1 == o.rd_rest()[0]
            &&& x.0 == o.rd_off() + I::rd_w(x.1)
            &&& n.rd_off() == o.rd_off() + I::rd_b(x.1)
            &&& n.rd_rest() == o.rd_rest().skip(1)
        }
    }
}
pub open spec fn next_det<T, I: VxRd<T>, E>(o: I, r: Result<(usize, T), E>) -> bool {
    &&& r is Ok <==> o.rd_fut() is Some
    &&& r matches Ok(x) ==> o.rd_fut() == Some(x.1)
    &&& I::rd_tok() ==> (r matches Ok(x) ==> I::rd_ok(o.rd_src(), x.1))
}

// ---- the peek reader ----
pub open spec fn is_some<T, E>(r: Result<(usize, T), E>) -> bool { r is Ok }
pub open spec fn item<T, E>(r: Result<(usize, T), E>) -> T { r->Ok_0.1 }
pub open spec fn seq1<T, E>(r: Result<(usize, T), E>) -> Seq<T> { if r is Ok { seq![r->Ok_0.1] } else { Seq::empty() } }
pub open spec fn b1<T, I: PeekRead<T>>(r: Result<(usize, T), I::Error>) -> int { if r is Ok { I::rd_b(r->Ok_0.1) } else { 0 } }

/// end of the last entry of a log of consumed tokens
pub open spec fn log_end<T, I: VxRd<T>>(l: Seq<T>) -> int { if l.len() == 0 { 0 } else { I::rd_e(l.last()) } }
pub open spec fn log_ok<T, I: VxRd<T>>(l: Seq<T>) -> bool
    decreases l.len(),
{
    l.len() == 0 || (log_ok::<T, I>(l.drop_last()) && log_end::<T, I>(l.drop_last()) <= I::rd_s(l.last()) < I::rd_e(l.last()))
}
/// the entries that end at or before `s`
pub open spec fn log_upto<T, I: VxRd<T>>(l: Seq<T>, s: int) -> Seq<T>
    decreases l.len(),
{
    if l.len() == 0 || I::rd_e(l.last()) <= s { l } else { log_upto::<T, I>(l.drop_last(), s) }
}
/// `l` extends `p`, and everything added starts at or after `lb`
pub open spec fn log_ext<T, I: VxRd<T>>(p: Seq<T>, l: Seq<T>, lb: int) -> bool {
    &&& p.len() <= l.len() && l.take(p.len() as int) =~= p
    &&& l.len() > p.len() ==> lb <= I::rd_s(l[p.len() as int])
}
pub broadcast proof fn lemma_take_full<T>(l: Seq<T>)
    ensures #[trigger] l.take(l.len() as int) == l,
{ assert(l.take(l.len() as int) =~= l); }
/// everything in a well-formed extension ends after `lb`
pub proof fn lemma_ext_last<T, I: VxRd<T>>(p: Seq<T>, l: Seq<T>, lb: int)
    requires log_ok::<T, I>(l), log_ext::<T, I>(p, l, lb),
    ensures l.len() > p.len() ==> I::rd_e(l.last()) > lb && lb <= I::rd_s(l.last()),
    decreases l.len(),
{
    if l.len() > p.len() + 1 {
        assert(l.drop_last().take(p.len() as int) =~= l.take(p.len() as int));
        lemma_ext_last::<T, I>(p, l.drop_last(), lb);
    }
}
/// rewinding to `s` undoes exactly what was consumed since
pub proof fn lemma_upto<T, I: VxRd<T>>(p: Seq<T>, l: Seq<T>, s: int)
    requires log_ok::<T, I>(l), log_ext::<T, I>(p, l, s), log_end::<T, I>(p) <= s,
    ensures log_upto::<T, I>(l, s) == p,
    decreases l.len(),
{
    if l.len() > p.len() {
        lemma_ext_last::<T, I>(p, l, s);
        assert(l.drop_last().take(p.len() as int) =~= l.take(p.len() as int));
        lemma_upto::<T, I>(p, l.drop_last(), s);
    } else {
        assert(l =~= p) by { assert(l.take(p.len() as int) =~= l); }
    }
}
pub proof fn lemma_upto_ok<T, I: VxRd<T>>(l: Seq<T>, s: int)
    requires log_ok::<T, I>(l),
    ensures
        log_ok::<T, I>(log_upto::<T, I>(l, s)),
        log_end::<T, I>(log_upto::<T, I>(l, s)) >= 0,
        s >= 0 ==> log_end::<T, I>(log_upto::<T, I>(l, s)) <= s,
        log_upto::<T, I>(l, s).len() <= l.len(),
        log_upto::<T, I>(l, s) == l.take(log_upto::<T, I>(l, s).len() as int),
        forall|i: int| 0 <= i < log_upto::<T, I>(l, s).len() ==> I::rd_e(#[trigger] l[i]) <= s,
        forall|i: int| log_upto::<T, I>(l, s).len() <= i < l.len() ==> I::rd_e(#[trigger] l[i]) > s,
    decreases l.len(),
{
    broadcast use lemma_take_full;
    if l.len() > 0 && I::rd_e(l.last()) > s {
        lemma_upto_ok::<T, I>(l.drop_last(), s);
        let n = log_upto::<T, I>(l, s).len() as int;
        assert(l.drop_last().take(n) =~= l.take(n));
        assert forall|i: int| 0 <= i < n implies I::rd_e(#[trigger] l[i]) <= s by { assert(l[i] == l.drop_last()[i]); }
        assert forall|i: int| n <= i < l.len() implies I::rd_e(#[trigger] l[i]) > s by { if i < l.len() - 1 { assert(l[i] == l.drop_last()[i]); } }
    } else if l.len() > 0 {
        lemma_log_mono::<T, I>(l);
        lemma_log_end::<T, I>(l);
    }
}
pub proof fn lemma_log_end<T, I: VxRd<T>>(l: Seq<T>)
    requires log_ok::<T, I>(l),
    ensures log_end::<T, I>(l) >= 0,
    decreases l.len(),
{
    if l.len() > 0 { lemma_log_end::<T, I>(l.drop_last()); }
}
pub proof fn lemma_log_mono<T, I: VxRd<T>>(l: Seq<T>)
    requires log_ok::<T, I>(l), l.len() > 0,
    ensures forall|i: int| 0 <= i < l.len() ==> I::rd_e(#[trigger] l[i]) <= I::rd_e(l.last()),
    decreases l.len(),
{
    if l.len() > 1 {
        lemma_log_mono::<T, I>(l.drop_last());
        assert forall|i: int| 0 <= i < l.len() implies I::rd_e(#[trigger] l[i]) <= I::rd_e(l.last()) by { if i < l.len() - 1 { assert(l[i] == l.drop_last()[i]); } }
    }
}

pub struct RdG<T> {
    /// items consumed and not given back by a rewind
    pub log: Seq<T>,
    /// rewound and nothing consumed since: `position` is not meaningful
    pub stale: bool,
    /// `current` was read in the stream's own state
    pub dfl: bool,
    /// character streams: the whole text, the index of the next character to be consumed, the position of the text's start
    pub chars: Seq<T>,
    pub k: int,
    pub base: int,
}
pub open spec fn rdg0<T>(chars: Seq<T>, base: int) -> RdG<T> { RdG { log: Seq::empty(), stale: false, dfl: true, chars, k: 0, base } }

/// byte length of the first k characters; reported position after k characters
pub open spec fn bsum<T, I: VxRd<T>>(s: Seq<T>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { bsum::<T, I>(s, k - 1) + I::rd_b(s[k - 1]) }
}
#[verifier::opaque]
pub open spec fn wpos<T, I: VxRd<T>>(s: Seq<T>, k: int) -> int {
    if k <= 0 { 0 } else { bsum::<T, I>(s, k - 1) + I::rd_w(s[k - 1]) }
}

impl<T, I: PeekRead<T>> PeekReader<T, I> {
    #[verifier::opaque]
    pub open spec fn wf(&self) -> bool {
        &&& self.inner.rd_inv()
        &&& 0 <= self.inner.rd_lim()
        &&& self.offset + self.inner.rd_lim() <= usize::MAX
        &&& self.position <= self.lim()
        &&& self.current matches Ok(x) ==> x.0 <= self.inner.rd_lim()
        &&& self.next matches Ok(x) ==> x.0 <= self.inner.rd_lim()
        &&& I::rd_tok() ==> self.tok_wf()
        &&& !I::rd_tok() ==> 0 <= self.k() <= self.chars().len() && self.char_wf()
    }
    #[verifier::opaque]
    pub open spec fn tok_wf(&self) -> bool {
        &&& self.offset == 0
        &&& log_ok::<T, I>(self.log())
        &&& 0 <= self.ll() <= self.inner.rd_off()
        &&& self.current matches Ok(x) ==> self.ll() <= I::rd_s(x.1) < I::rd_e(x.1) && I::rd_e(x.1) == x.0 && I::rd_e(x.1) <= self.inner.rd_off()
        &&& self.next matches Ok(x) ==> self.ll() <= I::rd_s(x.1) < I::rd_e(x.1) && I::rd_e(x.1) == x.0 && I::rd_e(x.1) <= self.inner.rd_off()
        &&& self.current is Ok && self.next is Ok ==> I::rd_e(self.current->Ok_0.1) <= I::rd_s(self.next->Ok_0.1)
        &&& !self.vx_g@.stale ==> self.position == self.ll()
        &&& self.next matches Ok(x) ==> I::rd_ok(self.src(), x.1)
        &&& self.vx_g@.dfl ==> (self.current matches Ok(x) ==> I::rd_ok(self.src(), x.1))
    }
    /// the pieces of the character stream: consumed so far | current | next | still inside `inner`
    #[verifier::opaque]
    pub open spec fn char_wf(&self) -> bool {
        &&& 0 <= self.k() <= self.chars().len()
        &&& self.inner.rd_rest() =~= self.chars().skip(min(self.k() + 2, self.chars().len() as int))
        &&& self.current is Ok <==> self.k() < self.chars().len()
        &&& self.next is Ok <==> self.k() + 1 < self.chars().len()
        &&& self.offset + self.inner.rd_off() == self.base() + bsum::<T, I>(self.chars(), min(self.k() + 2, self.chars().len() as int))
        &&& self.current matches Ok(x) ==> x.1 == self.chars()[self.k()] && x.0 + self.offset == self.base() + wpos::<T, I>(self.chars(), self.k() + 1)
        &&& self.next matches Ok(x) ==> x.1 == self.chars()[self.k() + 1] && x.0 + self.offset == self.base() + wpos::<T, I>(self.chars(), self.k() + 2)
        &&& self.position == self.base() + wpos::<T, I>(self.chars(), self.k())
    }
    /// what consuming a token does to the record of tokens
    pub open spec fn cons_tok(&self, o: Self, r: Result<T, I::Error>) -> bool {
        &&& o.current matches Ok(x) ==> self.log() == o.log().push(x.1) && !self.vx_g@.stale
        &&& o.current is Err ==> self.position == o.position && self.log() == o.log() && self.vx_g@.stale == o.vx_g@.stale
        &&& self.lb() >= o.lb()
        &&& self.vx_g@.dfl
        &&& self.current == o.next
        &&& o.current matches Ok(x) ==> r == Ok::<T, I::Error>(x.1)
        &&& o.current matches Err(e) ==> r == Err::<T, I::Error>(e)
    }
    /// what consuming a character does
    pub open spec fn cons_char(&self, o: Self, r: Result<T, I::Error>) -> bool {
        &&& r is Ok <==> o.k() < o.chars().len()
        &&& r matches Ok(t) ==> self.k() == o.k() + 1 && t == o.chars()[o.k()]
        &&& r is Err ==> self.k() == o.k()
        &&& self.chars() == o.chars() && self.base() == o.base()
    }
    pub open spec fn log(&self) -> Seq<T> { self.vx_g@.log }
    pub open spec fn ll(&self) -> int { log_end::<T, I>(self.log()) }
    /// a lower bound of everything consumed from here on
    pub open spec fn lb(&self) -> int { if self.current is Ok { I::rd_s(self.current->Ok_0.1) } else { self.ll() } }
    pub open spec fn src(&self) -> (Seq<char>, St) { self.inner.rd_src() }
    pub open spec fn chars(&self) -> Seq<T> { self.vx_g@.chars }
    pub open spec fn k(&self) -> int { self.vx_g@.k }
    pub open spec fn base(&self) -> int { self.vx_g@.base }
    pub open spec fn lim(&self) -> int { self.offset + self.inner.rd_lim() }
}
pub open spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

pub proof fn lemma_bsum_skip<T, I: VxRd<T>>(s: Seq<T>, n: int, k: int)
    requires 0 <= n, 0 <= k, n + k <= s.len(),
    ensures bsum::<T, I>(s.skip(n), k) + bsum::<T, I>(s, n) == bsum::<T, I>(s, n + k),
    decreases k,
{
    if k > 0 { lemma_bsum_skip::<T, I>(s, n, k - 1); }
}
/// A reader made for the tail of a text is a reader of the whole text, when positions and bytes agree at the cut.
pub proof fn lemma_rebase<I: PeekRead<char>>(r: PeekReader<char, I>, s: Seq<char>, n: int)
    requires
        r.char_wf(), 0 <= n <= s.len(), r.chars() == s.skip(n), r.k() == 0,
        r.base() == bsum::<char, I>(s, n), wpos::<char, I>(s, n) == r.base(),
    ensures
        forall|r2: PeekReader<char, I>| r2.inner == r.inner && r2.current == r.current && r2.next == r.next && r2.position == r.position && r2.offset == r.offset
            && r2.chars() == s && r2.k() == n && r2.base() == 0 ==> #[trigger] r2.char_wf(),
{
    reveal(PeekReader::char_wf);
    assert forall|r2: PeekReader<char, I>| r2.inner == r.inner && r2.current == r.current && r2.next == r.next && r2.position == r.position && r2.offset == r.offset
            && r2.chars() == s && r2.k() == n && r2.base() == 0 implies #[trigger] r2.char_wf() by {
        let c = r.chars();
        assert(c.skip(0) =~= c);
        reveal(wpos);
        lemma_bsum_skip::<char, I>(s, n, min(2, c.len() as int));
        if c.len() > 0 { lemma_bsum_skip::<char, I>(s, n, 0); }
        if c.len() > 1 { lemma_bsum_skip::<char, I>(s, n, 1); }
    }
}
}
}
