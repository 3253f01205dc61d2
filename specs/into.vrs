trait VpInto<T>: Sized { spec fn io(self, r: T) -> bool; fn vp_into(self) -> (r: T) ensures self.io(r); }
/// (The unit `strs` proves that a `CowStr` holds the text it is made from.)
impl<'a> VpInto<CowStr<'a>> for &'a str { spec fn io(self, r: CowStr<'a>) -> bool { r.t() == self@ } #[verifier::external_body] fn vp_into(self) -> (r: CowStr<'a>) { unimplemented!() } }
