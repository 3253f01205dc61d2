// --- owned text: clones, comparison, lower case ------------------------------------
trait VpClone: Sized { spec fn same(&self, r: Self) -> bool; fn vp_clone(&self) -> (r: Self) ensures self.same(r); }
impl VpClone for String {
    spec fn same(&self, r: Self) -> bool { self@ == r@ }
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() }
}
impl VpClone for Option<String> {
    spec fn same(&self, r: Self) -> bool { (*self is Some) == (r is Some) && (*self is Some ==> self->0@ == r->0@) }
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() }
}
/// `AsRef<str>`
trait VpAsRef<T: ?Sized> { spec fn rf(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.rf(); fn vp_as_ref(&self) -> (r: &str) ensures r@ == self.rf() { self.as_ref() } }
impl VpAsRef<str> for str { spec fn rf(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VpAsRef<str> for &str { spec fn rf(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VpAsRef<str> for String { spec fn rf(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VpAsRef<str> for &String { spec fn rf(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
/// Comparison of texts.
trait VpEqS { spec fn es(&self) -> Seq<char>; }
impl<T: VpEqS + ?Sized> VpEqS for &T { spec fn es(&self) -> Seq<char> { (**self).es() } }
impl VpEqS for str { spec fn es(&self) -> Seq<char> { self@ } }
impl VpEqS for String { spec fn es(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
fn vp_eq_str<A: VpEqS + ?Sized, B: VpEqS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.es() == b.es()) { unimplemented!() }
/// `opt == Some("text")`, as a pattern.
#[verifier::external_body]
fn vp_some_str<A: VpEqS, B: VpEqS + ?Sized>(a: &Option<A>, b: &B) -> (r: bool) ensures r == (*a is Some && (a->0).es() == b.es()) { unimplemented!() }
/// Lower case of a text.
uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
trait VpLower { spec fn lo(&self) -> Seq<char>; fn vp_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.lo()); }
impl VpLower for str { spec fn lo(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_lowercase(&self) -> (r: String) { unimplemented!() } }
impl VpLower for String { spec fn lo(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_lowercase(&self) -> (r: String) { unimplemented!() } }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == encode_utf8(s@).len();
