verus! {
pub mod vx {
use vstd::prelude::*;
use vstd::string::*;
pub use crate::fajt_lexer::code_point::CodePoint;

// Unicode tables of the unicode-id crate: uninterpreted.
pub uninterp spec fn id_start(c: char) -> bool;
pub uninterp spec fn id_continue(c: char) -> bool;
pub trait UnicodeID {
    fn is_id_start(self) -> bool;
    fn is_id_continue(self) -> bool;
}
impl UnicodeID for char {
    #[verifier::external_body]
    fn is_id_start(self) -> (r: bool) ensures r == id_start(self) { unimplemented!() }
    #[verifier::external_body]
    fn is_id_continue(self) -> (r: bool) ensures r == id_continue(self) { unimplemented!() }
}

// ---------- exec helpers that replace constructs outside the verifier's subset ----------
#[verifier::external_body]
pub fn unreached() -> !
    requires false,
{ panic!() }

#[verifier::external_body]
pub fn opaque_string() -> String { String::new() }

pub uninterp spec fn opaque_eq<T>(a: T, b: T) -> bool;

pub trait VxFromStr: Sized + crate::tables::Table {
    type Err;
    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures
            r matches Ok(k) ==> k.text() == s@,
            r is Err ==> forall|k: Self| #[trigger] k.text() != s@;
}
pub trait VxToString: Sized + crate::tables::Table {
    fn to_string(&self) -> (r: String)
        ensures r@ == self.text();
}
/// a `&str` is determined by its text (string-literal patterns compare texts)
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub fn parse_str<T: VxFromStr>(s: &str) -> (r: Result<T, T::Err>)
    ensures
        r matches Ok(k) ==> k.text() == s@,
        r is Err ==> forall|k: T| #[trigger] k.text() != s@,
{ T::from_str(s) }

pub proof fn lemma_kwc_bits()
    ensures
        0u32 & 1 == 0, 0u32 & 2 == 0, 0u32 & 128 == 0,
        forall|b: u32| (#[trigger] (b | 1)) & 1 != 0 && (b | 1) & 2 == b & 2 && (b | 1) & 128 == b & 128,
        forall|b: u32| (#[trigger] (b | 2)) & 1 == b & 1 && (b | 2) & 2 != 0 && (b | 2) & 128 == b & 128,
        forall|b: u32| (#[trigger] (b | 128)) & 1 == b & 1 && (b | 128) & 2 == b & 2 && (b | 128) & 128 != 0,
{
    assert(0u32 & 1 == 0 && 0u32 & 2 == 0 && 0u32 & 128 == 0) by (bit_vector);
    assert forall|b: u32| (#[trigger] (b | 1)) & 1 != 0 && (b | 1) & 2 == b & 2 && (b | 1) & 128 == b & 128 by { assert((b | 1) & 1 != 0 && (b | 1) & 2 == b & 2 && (b | 1) & 128 == b & 128) by (bit_vector); }
    assert forall|b: u32| (#[trigger] (b | 2)) & 1 == b & 1 && (b | 2) & 2 != 0 && (b | 2) & 128 == b & 128 by { assert((b | 2) & 1 == b & 1 && (b | 2) & 2 != 0 && (b | 2) & 128 == b & 128) by (bit_vector); }
    assert forall|b: u32| (#[trigger] (b | 128)) & 1 == b & 1 && (b | 128) & 2 == b & 2 && (b | 128) & 128 != 0 by { assert((b | 128) & 1 == b & 1 && (b | 128) & 2 == b & 2 && (b | 128) & 128 != 0) by (bit_vector); }
}
pub proof fn lemma_ctx_bits(b: u32)
    ensures
        b & 1 == 1 <==> b & 1 != 0,
        b & 2 == 2 <==> b & 2 != 0,
        b & 128 == 128 <==> b & 128 != 0,
        b & (2u32 | 128) != 0 <==> (b & 2 != 0 || b & 128 != 0),
        b & (1u32 | 2) != 0 <==> (b & 1 != 0 || b & 2 != 0),
        b & (1u32 | 128) != 0 <==> (b & 1 != 0 || b & 128 != 0),
        b & (1u32 | 2) == (1u32 | 2) <==> (b & 1 != 0 && b & 2 != 0),
{
    assert(b & 1 == 1 <==> b & 1 != 0) by (bit_vector);
    assert(b & 2 == 2 <==> b & 2 != 0) by (bit_vector);
    assert(b & 128 == 128 <==> b & 128 != 0) by (bit_vector);
    assert(b & (2u32 | 128) != 0 <==> (b & 2 != 0 || b & 128 != 0)) by (bit_vector);
    assert(b & (1u32 | 2) != 0 <==> (b & 1 != 0 || b & 2 != 0)) by (bit_vector);
    assert(b & (1u32 | 128) != 0 <==> (b & 1 != 0 || b & 128 != 0)) by (bit_vector);
    assert(b & (1u32 | 2) == (1u32 | 2) <==> (b & 1 != 0 && b & 2 != 0)) by (bit_vector);
}

pub mod io {
    use vstd::prelude::*;
    pub type Result<T> = core::result::Result<T, ()>;
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
    /// Ghost part of `Seek`: the positions an implementation accepts, and where it is afterwards.
    pub trait SeekSpec: Sized {
        spec fn seek_req(&self, pos: SeekFrom) -> bool;
        spec fn seek_ens(&self, o: &Self, pos: SeekFrom, r: Result<u64>) -> bool;
    }
    pub trait Seek: SeekSpec {
        fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64>)
            requires old(self).seek_req(pos),
            ensures final(self).seek_ens(&*old(self), pos, r);
    }
    pub trait Write { }
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(std::str::CharIndices<'a>);

pub uninterp spec fn ci_rest<'a>(c: std::str::CharIndices<'a>) -> Seq<char>;
pub uninterp spec fn ci_off<'a>(c: std::str::CharIndices<'a>) -> int;

/// number of bytes of one character / of a text in UTF-8
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn ulen(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { clen(s[0]) + ulen(s.subrange(1, s.len() as int)) }
}
pub proof fn lemma_ulen_nonneg(s: Seq<char>)
    ensures ulen(s) >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_ulen_nonneg(s.subrange(1, s.len() as int)); }
}
/// `n` is a character boundary of `s`; `after(s, n)` is the text from there on
pub open spec fn boundary(s: Seq<char>, n: int) -> bool
    decreases s.len(),
{
    n == 0 || (s.len() > 0 && n > 0 && boundary(s.subrange(1, s.len() as int), n - clen(s[0])))
}
pub open spec fn after(s: Seq<char>, n: int) -> Seq<char>
    decreases s.len(),
{
    if n <= 0 || s.len() == 0 { s } else { after(s.subrange(1, s.len() as int), n - clen(s[0])) }
}

#[verifier::external_body]
pub fn char_indices<'a>(s: &&'a str) -> (r: std::str::CharIndices<'a>)
    ensures ci_rest(r) == s@, ci_off(r) == 0, ulen(s@) <= isize::MAX,
{ s.char_indices() }
#[verifier::external_body]
pub fn char_indices_next<'a>(c: &mut std::str::CharIndices<'a>) -> (r: Option<(usize, char)>)
    ensures
        ci_off(*old(c)) + ulen(ci_rest(*old(c))) <= isize::MAX,
        ci_rest(*old(c)).len() == 0 ==> r is None && *final(c) == *old(c),
        ci_rest(*old(c)).len() > 0 ==> r == Some((ci_off(*old(c)) as usize, ci_rest(*old(c))[0]))
            && ci_off(*old(c)) >= 0
            && ci_off(*final(c)) == ci_off(*old(c)) + clen(ci_rest(*old(c))[0])
            && ci_rest(*final(c)) == ci_rest(*old(c)).subrange(1, ci_rest(*old(c)).len() as int),
{ c.next() }

pub assume_specification[ char::len_utf16 ](c: char) -> (r: usize)
    ensures r == if (c as u32) < 0x10000 { 1int } else { 2int };
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool)
    ensures r == ('0' <= *c && *c <= '9');
pub assume_specification[ char::is_ascii_hexdigit ](c: &char) -> (r: bool)
    ensures r == (('0' <= *c && *c <= '9') || ('a' <= *c && *c <= 'f') || ('A' <= *c && *c <= 'F'));
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub trait VxAsRefStr { fn vx_as_ref(&self) -> &str; }
impl VxAsRefStr for String { fn vx_as_ref(&self) -> (r: &str) ensures r@ == self@ { self.as_str() } }
pub trait VxAsRef { type T; fn vx_as_ref(&self) -> &Self::T; }
impl<A> VxAsRef for Box<A> { type T = A; fn vx_as_ref(&self) -> (r: &A) ensures *r == **self { &**self } }
pub trait VxAsMut { type T; fn vx_as_mut(&mut self) -> &mut Self::T; }
impl<A> VxAsMut for Box<A> { type T = A; fn vx_as_mut(&mut self) -> (r: &mut A) ensures *r == **old(self), *final(r) == **final(self) { &mut **self } }
pub assume_specification<T: Clone>[ <T as std::borrow::ToOwned>::to_owned ](b: &T) -> (r: T)
    ensures vstd::pervasive::cloned::<T>(*b, r);
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

#[verifier::external_body]
pub fn slice_from<'a, 'b>(s: &'b &'a str, from: usize) -> (r: &'a str)
    requires boundary(s@, from as int),
    ensures r@ == after(s@, from as int), from + ulen(r@) == ulen(s@), ulen(s@) <= isize::MAX,
{ &s[from..] }
#[verifier::external_body]
pub fn slice_to<'a, 'b>(s: &'b &'a str, to: usize) -> (r: &'a str)
    requires boundary(s@, to as int),
    ensures ulen(r@) == to, ulen(s@) <= isize::MAX, to <= ulen(s@),
{ &s[..to] }
#[verifier::external_body]
pub fn slice_range<'a, 'b>(s: &'b &'a str, from: usize, to: usize) -> (r: &'a str)
    requires boundary(s@, from as int), boundary(s@, to as int), from <= to,
{ &s[from..to] }

/// `t` is what `Into::into` makes of `s`
pub open spec fn into_rel<S: Into<T>, T>(s: S, t: T) -> bool { <S as vstd::std_specs::convert::IntoSpec<T>>::obeys_into_spec() ==> t == <S as vstd::std_specs::convert::IntoSpec<T>>::into_spec(s) }
/// std: `impl<T> From<T> for Box<T>` boxes the value
pub broadcast axiom fn axiom_into_box<T>(x: T)
    ensures *(#[trigger] <T as vstd::std_specs::convert::IntoSpec<Box<T>>>::into_spec(x)) == x;
pub broadcast axiom fn axiom_into_box_obeys<T>()
    ensures #[trigger] <T as vstd::std_specs::convert::IntoSpec<Box<T>>>::obeys_into_spec();
/// std: `impl From<&str> for String` copies the text
pub broadcast axiom fn axiom_into_string<'a>(x: &'a str)
    ensures (#[trigger] <&'a str as vstd::std_specs::convert::IntoSpec<String>>::into_spec(x))@ == x@;
pub broadcast axiom fn axiom_into_string_obeys<'a>()
    ensures #[trigger] <&'a str as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec();
/// std: `impl<T> From<T> for T` is the identity
pub broadcast axiom fn axiom_into_same<T>(x: T, y: T)
    ensures #[trigger] into_rel::<T, T>(x, y) ==> y == x;

pub trait VxText { spec fn text(&self) -> Seq<char>; fn get_text(&self) -> (r: &str) ensures r@ == self.text(); }
impl VxText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn get_text(&self) -> (r: &str) { self.as_str() }
}
impl VxText for &String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn get_text(&self) -> (r: &str) { self.as_str() }
}
/// `a == "literal"`
pub fn text_is<A: VxText + ?Sized>(a: &A, b: &str) -> (r: bool)
    ensures r == (a.text() == b@),
{ a.get_text() == b }
impl VxText for &str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn get_text(&self) -> (r: &str) { *self }
}
impl VxText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn get_text(&self) -> (r: &str) { self }
}
pub open spec fn contains_seq(s: Seq<char>, t: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t
}
#[verifier::external_body]
pub fn str_contains<T: VxText + ?Sized>(s: &T, t: &str) -> (r: bool)
    ensures r == contains_seq(s.text(), t@),
{ s.get_text().contains(t) }
#[verifier::external_body]
pub fn str_contains_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: bool)
    ensures r == s.text().contains(t),
{ s.get_text().contains(t) }
pub open spec fn starts_seq(s: Seq<char>, t: Seq<char>) -> bool {
    t.len() <= s.len() && s.subrange(0, t.len() as int) == t
}
#[verifier::external_body]
pub fn str_starts_with<T: VxText + ?Sized>(s: &T, t: &str) -> (r: bool)
    ensures r == starts_seq(s.text(), t@),
{ s.get_text().starts_with(t) }
#[verifier::external_body]
pub fn str_get_from<'a, 'b>(s: &'b &'a str, from: usize) -> (r: Option<&'a str>)
    ensures
        r is Some <==> boundary(s@, from as int),
        r matches Some(t) ==> t@ == after(s@, from as int),
{ s.get(from..) }
/// byte offset of the first / last occurrence of a character
#[verifier::external_body]
pub fn str_len<T: VxText + ?Sized>(s: &T) -> (r: usize)
    ensures r == ulen(s.text()), r <= isize::MAX,
{ s.get_text().len() }
pub open spec fn has_at(s: Seq<char>, n: int, c: char) -> bool {
    0 <= n < ulen(s) && boundary(s, n) && after(s, n).len() > 0 && after(s, n)[0] == c
}
#[verifier::external_body]
pub fn str_find_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: Option<usize>)
    ensures
        r matches Some(n) ==> n < ulen(s.text()) && has_at(s.text(), n as int, t) && (forall|m: int| 0 <= m < n ==> !has_at(s.text(), m, t)),
        r is None ==> !s.text().contains(t),
{ s.get_text().find(t) }
#[verifier::external_body]
pub fn str_rfind_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: Option<usize>)
    ensures
        r matches Some(n) ==> n < ulen(s.text()) && has_at(s.text(), n as int, t) && (forall|m: int| n < m ==> !has_at(s.text(), m, t)),
        r is None ==> !s.text().contains(t),
{ s.get_text().rfind(t) }
#[verifier::external_body]
pub fn str_ends_with_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: bool)
    ensures r == (s.text().len() > 0 && s.text().last() == t),
{ s.get_text().ends_with(t) }
#[verifier::external_body]
pub fn str_starts_with_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: bool)
    ensures r == (s.text().len() > 0 && s.text()[0] == t),
{ s.get_text().starts_with(t) }
pub open spec fn count_char(s: Seq<char>, t: char) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { count_char(s.drop_last(), t) + if s.last() == t { 1int } else { 0 } }
}
#[verifier::external_body]
pub fn str_count_char<T: VxText + ?Sized>(s: &T, t: char) -> (r: usize)
    ensures r == count_char(s.text(), t), r < usize::MAX,
{ s.get_text().matches(t).count() }

pub open spec fn hex_digit(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int }
    else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 }
    else { -1 }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hex_digit(#[trigger] s[i]) >= 0 }
pub open spec fn hex_value(s: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { hex_value(s.drop_last()) * 16 + hex_digit(s.last()) }
}
/// std's from_str_radix with radix 16 on a text of hexadecimal digits
#[verifier::external_body]
pub fn u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ()>)
    requires radix == 16,
    ensures all_hex(s@) && s@.len() > 0 ==> (r is Ok <==> hex_value(s@) <= u32::MAX) && (r matches Ok(v) ==> v == hex_value(s@)),
{ u32::from_str_radix(s, radix).map_err(|_| ()) }
pub open spec fn is_scalar(v: u32) -> bool { v < 0xD800 || (0xE000 <= v && v <= 0x10FFFF) }
#[verifier::external_body]
pub fn char_try_from(v: u32) -> (r: Result<char, ()>)
    ensures r is Ok <==> is_scalar(v), r matches Ok(c) ==> c as u32 == v,
{ char::try_from(v).map_err(|_| ()) }

/// `slice.iter().peekable()`
pub struct SlicePeek<'a, T> { pub s: &'a [T], pub i: usize }
pub fn slice_peek<'a, 'b, T>(s: &'b &'a [T]) -> (r: SlicePeek<'a, T>)
    ensures r.s == *s, r.i == 0,
{ SlicePeek { s: *s, i: 0 } }
impl<'a, T> SlicePeek<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).s == old(self).s,
            old(self).i < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).s@.len() ==> r is None && final(self).i == old(self).i,
    {
        if self.i < self.s.len() { let s = self.s; let r = &s[self.i]; self.i = self.i + 1; Some(r) } else { None }
    }
    pub fn peek(&mut self) -> (r: Option<&&'a T>)
        ensures
            *final(self) == *old(self),
            r is Some <==> old(self).i < old(self).s@.len(),
            r matches Some(x) ==> **x == old(self).s@[old(self).i as int],
    {
        slice_peek_at(self.s, self.i)
    }
}
#[verifier::external_body]
pub fn slice_peek_at<'a, 'b, T>(s: &'a [T], i: usize) -> (r: Option<&'b &'a T>)
    ensures
        r is Some <==> i < s@.len(),
        r matches Some(x) ==> **x == s@[i as int],
{ unimplemented!() }

pub uninterp spec fn sorted_of<T>(a: Seq<T>, b: Seq<T>) -> bool;
pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](v: &mut [T])
    ensures sorted_of(old(v)@, final(v)@);
pub open spec fn has_dup(a: Seq<&str>) -> bool {
    exists|i: int, j: int| 0 <= i < j < a.len() && a[i]@ == a[j]@
}
pub open spec fn has_adjacent_dup(a: Seq<&str>) -> bool {
    exists|i: int| 0 <= i < a.len() - 1 && #[trigger] a[i]@ == a[i + 1]@
}
/// sorting is a permutation that puts equal texts next to each other
pub broadcast axiom fn axiom_sorted_str(a: Seq<&str>, b: Seq<&str>)
    ensures #[trigger] sorted_of(a, b) ==> b.len() == a.len() && has_dup(a) == has_adjacent_dup(b);
}
}
