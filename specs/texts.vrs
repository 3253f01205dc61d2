// --- conversions between texts ----------------------------------------------------------
trait VpInto<T>: Sized { spec fn io(self, r: T) -> bool; fn vp_into(self) -> (r: T) ensures self.io(r); }
impl<'a> VpInto<Cow<'a, str>> for String { spec fn io(self, r: Cow<'a, str>) -> bool { cow(r) == self@ } fn vp_into(self) -> (r: Cow<'a, str>) { Cow::Owned(self) } }
impl<'a> VpInto<CowStr<'a>> for Cow<'_, str> { spec fn io(self, r: CowStr<'a>) -> bool { r.t() == cow(self) } #[verifier::external_body] fn vp_into(self) -> (r: CowStr<'a>) { unimplemented!() } }
impl<'a> VpInto<CowStr<'a>> for String { spec fn io(self, r: CowStr<'a>) -> bool { r.t() == self@ } #[verifier::external_body] fn vp_into(self) -> (r: CowStr<'a>) { unimplemented!() } }
impl VpDisplay for CowStr<'_> { spec fn disp(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpAsRef<str> for CowStr<'_> { spec fn rf(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
impl View for CowStr<'_> { type V = Seq<char>; closed spec fn view(&self) -> Seq<char> { self.t() } }
vp_txt!(CowStr<'_>);
