// --- C15: small and shared texts ------------------------------------------------------
global size_of usize == 8;
global size_of isize == 8;

//@type strings.rs | MAX_INLINE_STR_LEN exec=MAX_INLINE_STR_LEN==22
//@type strings.rs | StringTooLongError
//@type strings.rs | InlineStr derive=Clone,Copy
//@type strings.rs | CowStr

/// `Cow`, by its definition.
enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
spec fn cow(c: Cow<str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }

/// std, by its documentation.
trait VpEncode: Sized {
    spec fn ec(self) -> char;
    fn vp_encode_utf8<const N: usize>(self, a: &mut [u8; N])
        requires enc(self.ec()).len() <= N
        ensures final(a)@ =~= enc(self.ec()) + old(a)@.skip(enc(self.ec()).len() as int);
    fn vp_len_utf8(self) -> (r: usize) ensures r == enc(self.ec()).len(), r <= 4;
}
impl VpEncode for char {
    spec fn ec(self) -> char { self }
    #[verifier::external_body] fn vp_encode_utf8<const N: usize>(self, a: &mut [u8; N]) { unimplemented!() }
    #[verifier::external_body] fn vp_len_utf8(self) -> (r: usize) { unimplemented!() }
}
#[verifier::external_body]
fn vp_copy_to<const N: usize>(a: &mut [u8; N], n: usize, b: &[u8])
    requires n <= N, b@.len() == n
    ensures final(a)@ =~= b@ + old(a)@.skip(n as int)
{ unimplemented!() }
trait VpAsBytes { spec fn ab(&self) -> Seq<u8>; fn vp_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.ab(); }
impl VpAsBytes for str { spec fn ab(&self) -> Seq<u8> { self.spec_bytes() } #[verifier::external_body] fn vp_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
trait VpArr { spec fn a(&self) -> Seq<u8>; fn vp_slice_to(&self, n: usize) -> (r: &[u8]) requires n <= self.a().len() ensures r@ =~= self.a().take(n as int); }
impl<const N: usize> VpArr for [u8; N] { spec fn a(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_slice_to(&self, n: usize) -> (r: &[u8]) { unimplemented!() } }
struct VpUtf8Error;
#[verifier::external_body]
fn vp_from_utf8(b: &[u8]) -> (r: Result<&str, VpUtf8Error>) ensures (r is Ok) == valid_utf8(b@), r is Ok ==> (r->Ok_0).spec_bytes() =~= b@ { unimplemented!() }
trait VpOrDefault<'a> { spec fn od(&self) -> Seq<char>; fn vp_unwrap_or_default(self) -> (r: &'a str) ensures r@ == self.od(); }
impl<'a> VpOrDefault<'a> for Result<&'a str, VpUtf8Error> {
    spec fn od(&self) -> Seq<char> { match *self { Ok(s) => s@, Err(_) => Seq::empty() } }
    #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: &'a str) { unimplemented!() }
}
trait VpBox { spec fn bs(&self) -> Seq<char>; fn vp_into_boxed_str(self) -> (r: Box<str>) ensures r@ == self.bs(); }
impl VpBox for String { spec fn bs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_into_boxed_str(self) -> (r: Box<str>) { unimplemented!() } }
impl VpClone for Box<str> { spec fn same(&self, r: Self) -> bool { self@ == r@ } #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }
trait VpInto<T>: Sized { spec fn io(self, r: T) -> bool; fn vp_into(self) -> (r: T) ensures self.io(r); }
impl VpInto<InlineStr> for char { spec fn io(self, r: InlineStr) -> bool { r.ok() && r.t() == seq![self] } fn vp_into(self) -> (r: InlineStr) { InlineStr::from(self) } }
impl VpInto<String> for Box<str> { spec fn io(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vp_into(self) -> (r: String) { unimplemented!() } }
/// The longest encoding of a character has 4 bytes.
proof fn lemma_enc_len(c: char) ensures 1 <= enc(c).len() <= 4 {
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::empty());
}

impl InlineStr {
    /// Representation: the first `len` bytes are a text.
    spec fn ok(&self) -> bool { self.len as int <= self.inner@.len() && valid_utf8(self.inner@.take(self.len as int)) }
    spec fn t(&self) -> Seq<char> { decode_utf8(self.inner@.take(self.len as int)) }
    /// `Display` writes the text.
    #[verifier::external_body] fn vp_to_string(&self) -> (r: String) ensures self.ok() ==> r@ == self.t() { unimplemented!() }
}
impl<'a> CowStr<'a> {
    spec fn ok(&self) -> bool { match *self { CowStr::Inlined(s) => s.ok(), _ => true } }
    spec fn t(&self) -> Seq<char> { match *self { CowStr::Inlined(s) => s.t(), CowStr::Boxed(s) => s@, CowStr::Borrowed(s) => s@ } }
}

//@fn strings.rs | From<char> for InlineStr::from
//@ spec:
    ensures r.ok(), r.t() == seq![c]
//@ start:
    proof { lemma_enc_len(c); }
//@ exit:
    let e = enc(c);
    encode_utf8_valid_utf8(seq![c]);
    assert(__vp_r.inner@.take(e.len() as int) =~= e);
    encode_utf8_decode_utf8(seq![c]);
//@end
//@fn strings.rs | TryFrom<&str> for InlineStr::try_from
//@ spec:
    ensures
        (r is Ok) == (s.spec_bytes().len() <= 22),
        r matches Ok(i) ==> i.ok() && i.t() == s@
//@ start:
    let ghost st = s@;
//@ exit:
    if __vp_r is Ok {
        let i = __vp_r->Ok_0;
        assert(i.inner@.take(i.len as int) =~= encode_utf8(st));
        encode_utf8_valid_utf8(st);
        encode_utf8_decode_utf8(st);
    }
//@end
//@fn strings.rs | Deref for InlineStr::deref
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@ exit:
    encode_utf8_decode_utf8(__vp_r@);
//@end
//@fn strings.rs | PartialEq<InlineStr> for InlineStr::eq
//@ eqs:
//@ spec:
    requires self.ok(), other.ok()
    ensures r == (self.t() == other.t())
//@end
//@fn strings.rs | AsRef<str> for InlineStr::as_ref
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@end

//@fn strings.rs | Deref for CowStr::deref
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@end
//@fn strings.rs | AsRef<str> for CowStr::as_ref
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@end
//@fn strings.rs | Borrow<str> for CowStr::borrow
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@end
//@fn strings.rs | Clone for CowStr::clone
//@ spec:
    requires self.ok()
    ensures r.ok(), r.t() == self.t()
//@end
//@fn strings.rs | PartialEq<CowStr<'a>> for CowStr::eq
//@ eqs:
//@ spec:
    requires self.ok(), other.ok()
    ensures r == (self.t() == other.t())
//@end
//@fn strings.rs | From<&'a str> for CowStr::from
//@ name: from_str
//@ spec:
    ensures r.ok(), r.t() == s@
//@end
//@fn strings.rs | From<String> for CowStr::from
//@ name: from_string
//@ spec:
    ensures r.ok(), r.t() == s@
//@end
//@fn strings.rs | From<char> for CowStr::from
//@ name: from_char
//@ spec:
    ensures r.ok(), r.t() == seq![c]
//@end
//@fn strings.rs | From<Cow<'a,str>> for CowStr::from
//@ name: from_cow
//@ spec:
    ensures r.ok(), r.t() == cow(s)
//@end
//@fn strings.rs | From<CowStr<'a>> for Cow::from
//@ impl: impl<'a> Cow<'a, str>
//@ spec:
    requires s.ok()
    ensures cow(r) == s.t()
//@end
//@fn strings.rs | CowStr::into_string
//@ spec:
    requires self.ok()
    ensures r@ == self.t()
//@end

/// However a text is held, converting it to and fro gives it back, and equality is that of the texts.
proof fn lemma_texts(a: CowStr, b: CowStr)
    requires a.ok(), b.ok()
    ensures a.t() == b.t() <==> encode_utf8(a.t()) == encode_utf8(b.t())
{ encode_utf8_decode_utf8(a.t()); encode_utf8_decode_utf8(b.t()); }
