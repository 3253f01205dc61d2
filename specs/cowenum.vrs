// --- rendered text ---------------------------------------------------------------------
/// The unit `strs` proves that these hold the texts they are made from.
#[verifier::external_body] #[derive(Clone, Copy)] struct InlineStr { x: usize }
impl InlineStr { uninterp spec fn t(&self) -> Seq<char>; }
//@type strings.rs | CowStr
impl<'a> CowStr<'a> { pub closed spec fn t(&self) -> Seq<char> { match *self { CowStr::Inlined(s) => s.t(), CowStr::Boxed(s) => s@, CowStr::Borrowed(s) => s@ } } }
impl VpAsRef<str> for CowStr<'_> { spec fn rf(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl View for CowStr<'_> { type V = Seq<char>; closed spec fn view(&self) -> Seq<char> { self.t() } }
vp_txt!(CowStr<'_>);
