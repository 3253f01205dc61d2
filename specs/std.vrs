// ---------------------------------------------------------------------------
// Assumed contracts on the standard library (and memchr, bytecount), stated
// from their documentation. The oracle crate's `stdc` run tests each of them.
// ---------------------------------------------------------------------------

/// Where a string slice starts in memory (for `slice.as_ptr()` arithmetic).
uninterp spec fn addr(s: &str) -> int;

/// A `char` or `&str` that is searched for.
trait VpPat: Sized { spec fn pat(self) -> Seq<u8>; }
impl VpPat for char { spec fn pat(self) -> Seq<u8> { enc(self) } }
impl VpPat for &str { spec fn pat(self) -> Seq<u8> { self.spec_bytes() } }
impl VpPat for &String { spec fn pat(self) -> Seq<u8> { encode_utf8(self@) } }

spec fn at_pat(b: Seq<u8>, p: Seq<u8>, i: int) -> bool {
    0 <= i && i + p.len() <= b.len() && b.subrange(i, i + p.len()) =~= p
}

/// Looking for an ASCII character is looking for its byte.
/// Text with the same bytes has the same characters.
proof fn lemma_same_text(a: &str)
    ensures forall|b: &str| #[trigger] b.spec_bytes() =~= a.spec_bytes() ==> b@ == a@
{ assert forall|b: &str| #[trigger] b.spec_bytes() =~= a.spec_bytes() implies b@ == a@ by { lemma_view(b, a@); } }

proof fn lemma_ascii_pats(s: &str)
    ensures
        forall|c: char, i: int| (c as u32) < 128 && 0 <= i < s.spec_bytes().len() ==> (#[trigger] at_pat(s.spec_bytes(), enc(c), i) <==> s.spec_bytes()[i] == c as u8),
        forall|c: char, i: int| (c as u32) < 128 && !(0 <= i < s.spec_bytes().len()) ==> !#[trigger] at_pat(s.spec_bytes(), enc(c), i),
{
    let b = s.spec_bytes();
    assert forall|c: char, i: int| (c as u32) < 128 && 0 <= i < b.len() implies (#[trigger] at_pat(b, enc(c), i) <==> b[i] == c as u8) by {
        assert(b.subrange(i, i + 1) =~= seq![b[i]]);
        assert(enc(c)[0] == c as u8);
    }
}

/// Ranges that slice a string.
trait VpRange: Sized { spec fn lo(self) -> int; spec fn hi(self, n: int) -> int; }
impl VpRange for Range<usize> { spec fn lo(self) -> int { self.start as int } spec fn hi(self, n: int) -> int { self.end as int } }
impl VpRange for RangeFrom<usize> { spec fn lo(self) -> int { self.start as int } spec fn hi(self, n: int) -> int { n } }
impl VpRange for RangeTo<usize> { spec fn lo(self) -> int { 0 } spec fn hi(self, n: int) -> int { self.end as int } }

/// `r` is the first index at which `p` is found in `b`, if it is.
spec fn found_at(b: Seq<u8>, p: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(n) => at_pat(b, p, n as int) && bdy(b, n as int) && bdy(b, n + p.len()) && forall|i: int| 0 <= i < n ==> !#[trigger] at_pat(b, p, i),
        None => !has_pat(b, p),
    }
}
spec fn has_pat(b: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| 0 <= i <= b.len() && #[trigger] at_pat(b, p, i) }

trait VpStr {
    spec fn b(&self) -> Seq<u8>;
    spec fn c(&self) -> Seq<char>;
    spec fn ad(&self) -> int;

    fn vp_slice(&self, a: usize, z: usize) -> (r: &str)
        requires a <= z <= self.b().len(), bdy(self.b(), a as int), bdy(self.b(), z as int)
        ensures r.spec_bytes() =~= self.b().subrange(a as int, z as int), addr(r) == self.ad() + a;

    fn vp_slice_from(&self, a: usize) -> (r: &str)
        requires a <= self.b().len(), bdy(self.b(), a as int)
        ensures r.spec_bytes() =~= self.b().subrange(a as int, self.b().len() as int), addr(r) == self.ad() + a;

    fn vp_slice_to(&self, z: usize) -> (r: &str)
        requires z <= self.b().len(), bdy(self.b(), z as int)
        ensures r.spec_bytes() =~= self.b().subrange(0, z as int), addr(r) == self.ad();

    fn vp_slice_rng<R: VpRange>(&self, g: R) -> (r: &str)
        requires g.lo() <= g.hi(self.b().len() as int) <= self.b().len(), bdy(self.b(), g.lo()), bdy(self.b(), g.hi(self.b().len() as int))
        ensures r.spec_bytes() =~= self.b().subrange(g.lo(), g.hi(self.b().len() as int)), addr(r) == self.ad() + g.lo();

    fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>)
        ensures found_at(self.b(), p.pat(), r);

    fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool)
        ensures r == has_pat(self.b(), p.pat());

    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool)
        ensures r == at_pat(self.b(), p.pat(), 0), r ==> bdy(self.b(), p.pat().len() as int);

    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool)
        ensures r == at_pat(self.b(), p.pat(), self.b().len() - p.pat().len()), r ==> bdy(self.b(), self.b().len() - p.pat().len());

    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            (r is Some) == at_pat(self.b(), p.pat(), 0),
            r is Some ==> bdy(self.b(), p.pat().len() as int) && r->0.spec_bytes() =~= self.b().subrange(p.pat().len() as int, self.b().len() as int)
                && addr(r->0) == self.ad() + p.pat().len();

    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            (r is Some) == at_pat(self.b(), p.pat(), self.b().len() - p.pat().len()),
            r is Some ==> bdy(self.b(), self.b().len() - p.pat().len()) && r->0.spec_bytes() =~= self.b().subrange(0, self.b().len() - p.pat().len())
                && addr(r->0) == self.ad();

    /// `trim_end_matches` with a character.
    fn vp_trim_end_matches(&self, c: char) -> (r: &str)
        requires (c as u32) < 128
        ensures
            r.spec_bytes().len() <= self.b().len(),
            r.spec_bytes() =~= self.b().subrange(0, r.spec_bytes().len() as int),
            bdy(self.b(), r.spec_bytes().len() as int),
            addr(r) == self.ad(),
            r.spec_bytes().len() > 0 ==> r.spec_bytes().last() != c as u8,
            forall|i: int| r.spec_bytes().len() <= i < self.b().len() ==> self.b()[i] == c as u8;

    fn vp_trim_start_matches(&self, c: char) -> (r: &str)
        requires (c as u32) < 128
        ensures
            r.spec_bytes().len() <= self.b().len(),
            r.spec_bytes() =~= self.b().subrange(self.b().len() - r.spec_bytes().len(), self.b().len() as int),
            bdy(self.b(), self.b().len() - r.spec_bytes().len()),
            addr(r) == self.ad() + self.b().len() - r.spec_bytes().len(),
            r.spec_bytes().len() > 0 ==> r.spec_bytes()[0] != c as u8,
            forall|i: int| 0 <= i < self.b().len() - r.spec_bytes().len() ==> self.b()[i] == c as u8;

    fn vp_trim_end(&self) -> (r: &str)
        ensures
            r.spec_bytes().len() <= self.b().len(),
            r.spec_bytes() =~= self.b().subrange(0, r.spec_bytes().len() as int),
            bdy(self.b(), r.spec_bytes().len() as int),
            addr(r) == self.ad(),
            r@ =~= self.c().take(trimmed(self.c()) as int),
            trimmed(self.c()) <= self.c().len();
}

impl VpStr for str {
    spec fn b(&self) -> Seq<u8> { self.spec_bytes() }
    spec fn c(&self) -> Seq<char> { self@ }
    spec fn ad(&self) -> int { addr(self) }
    #[verifier::external_body] fn vp_slice(&self, a: usize, z: usize) -> (r: &str) { &self[a..z] }
    #[verifier::external_body] fn vp_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vp_slice_to(&self, z: usize) -> (r: &str) { &self[..z] }
    #[verifier::external_body] fn vp_slice_rng<R: VpRange>(&self, g: R) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_end_matches(&self, c: char) -> (r: &str) { self.trim_end_matches(c) }
    #[verifier::external_body] fn vp_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body] fn vp_trim_end(&self) -> (r: &str) { self.trim_end() }
}

/// Slicing of bytes.
trait VpBytes {
    spec fn bb(&self) -> Seq<u8>;
    fn vp_slice_from(&self, a: usize) -> (r: &[u8])
        requires a <= self.bb().len()
        ensures r@ =~= self.bb().subrange(a as int, self.bb().len() as int);
}
impl VpBytes for [u8] {
    spec fn bb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vp_slice_from(&self, a: usize) -> (r: &[u8]) { &self[a..] }
}

#[verifier::external_body]
fn vp_unreachable<A>() -> A
    requires false
{ unimplemented!() }

/// memchr::Memchr: the positions of a byte, in increasing order.
#[verifier::external_body]
struct Memchr { x: usize }
impl Memchr {
    uninterp spec fn hay(&self) -> Seq<u8>;
    uninterp spec fn needle(&self) -> u8;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn new(n: u8, h: &[u8]) -> (r: Self)
        ensures r.hay() == h@, r.needle() == n, r.pos() == 0
    { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<usize>)
        requires 0 <= old(self).pos() <= old(self).hay().len()
        ensures
            final(self).hay() == old(self).hay(), final(self).needle() == old(self).needle(),
            0 <= final(self).pos() <= final(self).hay().len(),
            r is Some ==> old(self).pos() <= r->0 < old(self).hay().len() && old(self).hay()[r->0 as int] == old(self).needle()
                && final(self).pos() == r->0 + 1 && (forall|i: int| old(self).pos() <= i < r->0 ==> old(self).hay()[i] != old(self).needle()),
            r is None ==> final(self).pos() == old(self).hay().len() && (forall|i: int| old(self).pos() <= i < old(self).hay().len() ==> old(self).hay()[i] != old(self).needle()),
    { unimplemented!() }
}

/// bytecount::num_chars
#[verifier::external_body]
fn num_chars(b: &[u8]) -> (r: usize)
    ensures r == nch(b@)
{ unimplemented!() }

/// str::char_indices
#[verifier::external_body]
struct VpCharIndices { x: usize }
impl VpCharIndices {
    uninterp spec fn s(&self) -> Seq<char>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures
            final(self).s() == old(self).s(),
            0 <= final(self).k() <= final(self).s().len(),
            (r is Some) == (old(self).k() < old(self).s().len()),
            r is Some ==> (r->0).0 == encode_utf8(old(self).s().take(old(self).k())).len() && (r->0).1 == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
}
trait VpChars {
    spec fn ch(&self) -> Seq<char>;
    fn vp_char_indices(&self) -> (r: VpCharIndices)
        ensures r.s() == self.ch(), r.k() == 0;
}
impl VpChars for str {
    spec fn ch(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_char_indices(&self) -> (r: VpCharIndices) { unimplemented!() }
}

/// ASCII classes of characters.
spec fn ascii_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
spec fn ascii_digit(c: char) -> bool { '0' <= c && c <= '9' }
spec fn ascii_alnum(c: char) -> bool { ascii_alpha(c) || ascii_digit(c) }
trait VpChar {
    spec fn cc(&self) -> char;
    fn vp_is_ascii_alphabetic(&self) -> (r: bool) ensures r == ascii_alpha(self.cc());
    fn vp_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == ascii_alnum(self.cc());
    fn vp_is_ascii_digit(&self) -> (r: bool) ensures r == ascii_digit(self.cc());
}
impl VpChar for char {
    spec fn cc(&self) -> char { *self }
    #[verifier::external_body] fn vp_is_ascii_alphabetic(&self) -> (r: bool) { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn vp_is_ascii_alphanumeric(&self) -> (r: bool) { self.is_ascii_alphanumeric() }
    #[verifier::external_body] fn vp_is_ascii_digit(&self) -> (r: bool) { self.is_ascii_digit() }
}

/// `vp_iter(e)` is `e.into_iter()` for the iterators above.
fn vp_iter<T>(t: T) -> (r: T) ensures r == t { t }

/// Option combinators that vstd has no contract for, by their definition.
trait VpOpt<T>: Sized {
    spec fn opt(self) -> Option<T>;
    fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures self.opt() is Some ==> f.ensures((self.opt()->0,), r), self.opt() is None ==> r == d;
    fn vp_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures self.opt() is None ==> r is None, self.opt() is Some ==> r is Some && f.ensures((self.opt()->0,), r->0);
    fn vp_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures self.opt() is None ==> r is None, self.opt() is Some ==> f.ensures((self.opt()->0,), r);
    fn vp_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.opt() is None ==> f.requires(())
        ensures self.opt() is Some ==> r == self.opt(), self.opt() is None ==> f.ensures((), r);
    fn vp_or(self, o: Option<T>) -> (r: Option<T>) ensures self.opt() is Some ==> r == self.opt(), self.opt() is None ==> r == o;
    fn vp_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U)
        requires self.opt() is Some ==> f.requires((self.opt()->0,)), self.opt() is None ==> d.requires(())
        ensures self.opt() is Some ==> f.ensures((self.opt()->0,), r), self.opt() is None ==> d.ensures((), r);
    fn vp_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        requires self.opt() is Some ==> f.requires((self.opt()->0,))
        ensures self.opt() is None ==> !r, self.opt() is Some ==> f.ensures((self.opt()->0,), r);
    fn vp_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.opt() is Some ==> f.requires((&self.opt()->0,))
        ensures
            self.opt() is None ==> r is None,
            self.opt() is Some ==> (r is Some ==> r == self.opt() && f.ensures((&self.opt()->0,), true)) && (r is None ==> f.ensures((&self.opt()->0,), false));
}
impl<T> VpOpt<T> for Option<T> {
    spec fn opt(self) -> Option<T> { self }
    fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(t) => f(t), None => d } }
    fn vp_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(t) => Some(f(t)), None => None } }
    fn vp_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { match self { Some(t) => f(t), None => None } }
    fn vp_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(t) => Some(t), None => f() } }
    fn vp_or(self, o: Option<T>) -> (r: Option<T>) { match self { Some(t) => Some(t), None => o } }
    fn vp_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, d: D, f: F) -> (r: U) { match self { Some(t) => f(t), None => d() } }
    fn vp_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { match self { Some(t) => f(t), None => false } }
    #[verifier::external_body]
    fn vp_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
}

