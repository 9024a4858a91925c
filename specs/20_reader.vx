# The peek reader and the two stream traits.
== super common::PeekRead crate::rd::VxRd<T>
== super common::ReReadWithState crate::rd::VxRd<T>
== struct PeekReader
field: vx_g: Ghost<crate::rd::RdG<T>>
init: vx_g: Ghost(crate::rd::rdg0(vx_rest, vx_base))

== fn common::PeekRead::next
req: old(self).rd_inv()
ens: crate::rd::next_post::<T, Self, Self::Error>(*old(self), *final(self), r)
ens: crate::rd::next_det::<T, Self, Self::Error>(*old(self), r)

== fn common::PeekRead<char>@CharIndices::next
begin: assert(ci_rest(*self).len() > 0 ==> ulen(ci_rest(*self)) == clen(ci_rest(*self)[0]) + ulen(ci_rest(*self).subrange(1, ci_rest(*self).len() as int)) && ci_rest(*self).skip(1) =~= ci_rest(*self).subrange(1, ci_rest(*self).len() as int)); proof { if ci_rest(*self).len() > 0 { lemma_ulen_nonneg(ci_rest(*self).subrange(1, ci_rest(*self).len() as int)); } }

== fn common::ReReadWithState::rewind_before
req: old(self).rd_inv() && old(self).rd_can_rewind(*item)
ens: final(self).rd_inv() && final(self).rd_lim() == old(self).rd_lim() && final(self).rd_src() == old(self).rd_src()
ens: final(self).rd_off() == Self::rd_s(*item) && final(self).rd_cur() == Self::rd_at(*item)
ens: Self::rd_ok(final(self).rd_src(), *item) ==> final(self).rd_fut() == Some(*item)
== fn common::ReReadWithState::read_with_state
req: old(self).rd_inv() && Self::rd_tok()
ens: crate::rd::next_post::<T, Self, <Self as ReReadWithState<T>>::Error>(*old(self), *final(self), r)
ens: r matches Ok(x) ==> Self::rd_re(old(self).rd_src(), old(self).rd_cur(), crate::rd::st_any(state), x.1)

== fn common::PeekReader::new
req: !I::rd_tok() ==> inner.rd_off() == 0
req: inner.rd_inv() && (I::rd_tok() ==> inner.rd_off() >= 0)
req: inner.rd_lim() <= usize::MAX && 0 <= inner.rd_lim()
ens: r matches Ok(p) ==> p.wf() && p.src() == inner.rd_src() && p.vx_g@ == crate::rd::rdg0::<T>(inner.rd_rest(), inner.rd_off()) && p.lim() == inner.rd_lim()
ens: r is Ok

== fn common::PeekReader::with_offset
req: inner.rd_inv()
req: I::rd_tok() ==> offset == 0 && inner.rd_off() >= 0
req: !I::rd_tok() ==> inner.rd_off() == 0
req: offset + inner.rd_lim() <= usize::MAX && 0 <= inner.rd_lim()
begin: let ghost vx_rest = inner.rd_rest(); let ghost vx_base = offset + inner.rd_off(); proof { reveal(crate::fajt_common::io::PeekReader::char_wf); reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::rd::wpos); reveal_with_fuel(crate::rd::bsum, 3); }
ens: r matches Ok(p) ==> p.wf() && p.src() == inner.rd_src() && p.vx_g@ == crate::rd::rdg0::<T>(inner.rd_rest(), offset + inner.rd_off()) && p.lim() == offset + inner.rd_lim() && p.offset == offset
ens: r is Ok

== fn common::PeekReader::position
begin: proof { reveal(crate::fajt_common::io::PeekReader::char_wf); reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::rd::wpos); }
ens: r == self.position
ens: !I::rd_tok() && self.wf() ==> r == self.base() + crate::rd::wpos::<T, I>(self.chars(), self.k()) && 0 <= self.k() <= self.chars().len() && r <= self.lim()
== fn common::PeekReader::current
begin: proof { reveal(crate::fajt_common::io::PeekReader::char_wf); reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::rd::wpos); }
ens: self.current matches Ok(x) ==> r == Ok::<&T, &I::Error>(&x.1)
ens: self.current matches Err(e) ==> r == Err::<&T, &I::Error>(&e)
ens: !I::rd_tok() && self.wf() ==> 0 <= self.k() <= self.chars().len() && (r is Ok <==> self.k() < self.chars().len()) && (r matches Ok(t) ==> *t == self.chars()[self.k()])
== fn common::PeekReader::peek
begin: proof { reveal(crate::fajt_common::io::PeekReader::char_wf); reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::rd::wpos); }
ens: self.next matches Ok(x) ==> r == Ok::<&T, &I::Error>(&x.1)
ens: self.next matches Err(e) ==> r == Err::<&T, &I::Error>(&e)
ens: !I::rd_tok() && self.wf() ==> 0 <= self.k() <= self.chars().len() && (r is Ok <==> self.k() + 1 < self.chars().len()) && (r matches Ok(t) ==> *t == self.chars()[self.k() + 1])

== fn common::PeekReader::consume
req: old(self).wf()
begin: proof { reveal(crate::fajt_common::io::PeekReader::char_wf); reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); reveal(crate::rd::wpos); reveal_with_fuel(crate::rd::bsum, 3); if self.current is Ok { self.vx_g@.log = self.vx_g@.log.push(self.current->Ok_0.1); self.vx_g@.stale = false; self.vx_g@.k = self.vx_g@.k + 1; assert(self.vx_g@.log.drop_last() =~= old(self).vx_g@.log); } self.vx_g@.dfl = true; }
ens: final(self).wf() && final(self).src() == old(self).src() && final(self).lim() == old(self).lim()
ens: I::rd_tok() ==> final(self).cons_tok(*old(self), r)
ens: !I::rd_tok() ==> final(self).cons_char(*old(self), r)

== fn common::PeekReader::rewind_to
req: I::rd_tok() && old(self).wf() && old(self).inner.rd_can_rewind(*item) && I::rd_s(*item) >= 0
begin: proof { reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); crate::rd::lemma_upto_ok::<T, I>(self.vx_g@.log, I::rd_s(*item)); self.vx_g@.log = crate::rd::log_upto::<T, I>(self.vx_g@.log, I::rd_s(*item)); self.vx_g@.stale = true; self.vx_g@.dfl = true; }
ens: r is Ok
ens: final(self).wf() && final(self).src() == old(self).src() && final(self).lim() == old(self).lim() && final(self).vx_g@.dfl && final(self).vx_g@.stale
ens: final(self).log() == crate::rd::log_upto::<T, I>(old(self).log(), I::rd_s(*item))
ens: I::rd_ok(old(self).src(), *item) ==> final(self).current is Ok && final(self).current->Ok_0.1 == *item
ens: final(self).current is Ok ==> I::rd_s(*item) <= I::rd_s(final(self).current->Ok_0.1)

== fn common::PeekReader::reread_with_state
req: I::rd_tok() && old(self).wf() && (old(self).current matches Ok(x) ==> old(self).inner.rd_can_rewind(x.1))
begin: proof { reveal(crate::fajt_common::io::PeekReader::tok_wf); reveal(crate::fajt_common::io::PeekReader::wf); self.vx_g@.dfl = false; }
ens: r is Ok
ens: final(self).wf() && final(self).src() == old(self).src() && final(self).lim() == old(self).lim()
ens: final(self).log() == old(self).log() && final(self).vx_g@.stale == old(self).vx_g@.stale && final(self).position == old(self).position
ens: old(self).current matches Ok(x) ==> (final(self).current is Ok ==> I::rd_s(x.1) <= I::rd_s(final(self).current->Ok_0.1))
ens: old(self).current matches Ok(x) ==> (final(self).current matches Ok(y) ==> I::rd_re(old(self).src(), I::rd_at(x.1), crate::rd::st_any(state), y.1))
ens: old(self).current is Err ==> final(self).current == old(self).current

# read_while: the characters up to the first one that fails the test
== fn common::PeekReader::read_while
begin: proof { reveal(crate::fajt_common::io::PeekReader::wf); }
req: old(self).wf() && !I::rd_tok()
inv: self.wf() && self.src() == old(self).src() && self.lim() == old(self).lim() && self.chars() == old(self).chars() && self.base() == old(self).base() && old(self).k() <= self.k()
inv: !I::rd_tok()
inv: 0 <= old(self).k() <= self.k() <= self.chars().len() && result@ =~= self.chars().subrange(old(self).k(), self.k())
ens: final(self).wf() && final(self).src() == old(self).src() && final(self).lim() == old(self).lim() && final(self).chars() == old(self).chars() && final(self).base() == old(self).base()
ens: r is Ok
ens: 0 <= old(self).k() <= final(self).k() <= final(self).chars().len() && r->Ok_0@ == final(self).chars().subrange(old(self).k(), final(self).k())
== fn common::PeekReader::read_while@read_number_string@expect_read_number_string@read_decimal_string
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Dec) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Dec)
== fn common::PeekReader::read_while@read_number_string@expect_read_number_string@read_binary_string
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Bin) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Bin)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Bin)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Bin)
== fn common::PeekReader::read_while@read_number_string@expect_read_number_string@read_octal_string
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Oct) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Oct)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Oct)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Oct)
== fn common::PeekReader::read_while@read_number_string@expect_read_number_string@read_hex_string
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Hex) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Hex)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Hex)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Hex)
== fn common::PeekReader::read_while@read_number_string@read_decimal_string#2
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Dec) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Dec)
== fn common::PeekReader::read_while@read_number_string@read_decimal_string
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::Dec) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::Dec)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::Dec)
== fn common::PeekReader::read_while@skip_rest_of_line
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::NotLt) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::NotLt)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::NotLt)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::NotLt)
== fn common::PeekReader::read_while@read_regexp_literal
inv: crate::lexspec::run_end(self.chars(), self.k(), crate::lexspec::Cls::IdP) == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::IdP)
lens: self.k() == crate::lexspec::run_end(self.chars(), old(self).k(), crate::lexspec::Cls::IdP)
ens: final(self).k() == crate::lexspec::run_end(old(self).chars(), old(self).k(), crate::lexspec::Cls::IdP)
