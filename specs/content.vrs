// --- rendered text ---------------------------------------------------------------------
/// A small or shared text, by what it holds (the unit `strs` proves that it holds it).
#[verifier::external_body] struct CowStr<'a> { x: &'a str }
impl<'a> CowStr<'a> { uninterp spec fn t(&self) -> Seq<char>; }
//@type content/content.rs | Content
spec fn text(c: Content) -> Seq<char> { c.rendered.t() }
