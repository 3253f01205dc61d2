// ---------------------------------------------------------------------------
// Regular expressions: the matches of a pattern in a text, and replacement.
// Assumed contracts on the `regex` crate, from its documentation.
// ---------------------------------------------------------------------------
enum Cow<'a, T: ?Sized> { Borrowed(&'a T), Owned(String) }
spec fn cow(c: Cow<str>) -> Seq<char> { match c { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }

/// What the groups of a match hold.
type Groups = Seq<Option<Seq<char>>>;
/// A match: its place, and its groups (group 0 is all of it).
struct Cap { ghost s: int, ghost e: int, ghost g: Groups }

#[verifier::external_body] struct Captures<'h> { x: &'h str }
#[verifier::external_body] struct Match<'h> { x: &'h str }
impl<'h> Captures<'h> {
    uninterp spec fn g(&self) -> Groups;
    spec fn has(&self, i: int) -> bool { 0 <= i < self.g().len() && self.g()[i] is Some }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<Match<'h>>) ensures (r is Some) == self.has(i as int), r is Some ==> (r->0).t() == self.g()[i as int]->0 { unimplemented!() }
    /// `captures[i]`: the group must have taken part.
    #[verifier::external_body]
    fn vp_at(&self, i: usize) -> (r: &str) requires self.has(i as int) ensures r@ == self.g()[i as int]->0 { unimplemented!() }
}
impl<'h> Match<'h> {
    uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body] fn as_str(&self) -> (r: &'h str) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == encode_utf8(self.t()).len() { unimplemented!() }
}

/// `regex::Replacer`; what one writes for a match, after `d`, as `nx` says.
trait Replacer: Sized {
    type St;
    spec fn st(&self) -> Self::St;
    /// Its state when it is done with (what it holds by reference then is).
    #[verifier::prophetic] spec fn fin(&self) -> Self::St;
    spec fn can(s: Self::St, g: Groups) -> bool;
    spec fn nx(s: Self::St, g: Groups, d: Seq<char>) -> (Self::St, Seq<char>);
    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String)
        requires Self::can(old(self).st(), caps.g())
        ensures (final(self).st(), final(dest)@) == Self::nx(old(self).st(), caps.g(), old(dest)@), final(self).fin() == old(self).fin();
}
/// Replacing matches, from `at` on, after `d`: text between matches is kept, and what is written for a match is not looked at again.
spec fn run<R: Replacer>(ms: Seq<Cap>, h: Seq<char>, at: int, s: R::St, d: Seq<char>) -> (R::St, Seq<char>) decreases ms.len() {
    if ms.len() == 0 { (s, d + h.skip(at)) } else {
        let (s2, d2) = R::nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        run::<R>(ms.skip(1), h, ms[0].e, s2, d2)
    }
}
/// The replacer can deal with every match it gets.
spec fn runs<R: Replacer>(ms: Seq<Cap>, h: Seq<char>, at: int, s: R::St, d: Seq<char>) -> bool decreases ms.len() {
    ms.len() > 0 ==> R::can(s, ms[0].g) && {
        let (s2, d2) = R::nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        runs::<R>(ms.skip(1), h, ms[0].e, s2, d2)
    }
}
/// A text to look through.
trait VpHay { spec fn hay(&self) -> Seq<char>; }
impl VpHay for str { spec fn hay(&self) -> Seq<char> { self@ } }
impl VpHay for String { spec fn hay(&self) -> Seq<char> { self@ } }
impl VpHay for Cow<'_, str> { spec fn hay(&self) -> Seq<char> { cow(*self) } }
impl VpHay for CowStr<'_> { spec fn hay(&self) -> Seq<char> { self.t() } }
/// A pattern.
trait VpRegex: Sized {
    spec fn finds(&self, h: Seq<char>) -> Seq<Cap>;
    #[verifier::external_body]
    fn replace_all<'h, H: VpHay + ?Sized, R: Replacer>(&self, h: &'h H, rep: R) -> (r: Cow<'h, str>)
        requires runs::<R>(self.finds(h.hay()), h.hay(), 0, rep.st(), Seq::empty())
        ensures rep.fin() == run::<R>(self.finds(h.hay()), h.hay(), 0, rep.st(), Seq::empty()).0, (r is Owned) == (self.finds(h.hay()).len() > 0), cow(r) == run::<R>(self.finds(h.hay()), h.hay(), 0, rep.st(), Seq::empty()).1
    { unimplemented!() }
    #[verifier::external_body]
    fn captures<'h, H: VpHay + ?Sized>(&self, h: &'h H) -> (r: Option<Captures<'h>>) ensures (r is Some) == (self.finds(h.hay()).len() > 0), r is Some ==> (r->0).g() == self.finds(h.hay())[0].g { unimplemented!() }
    #[verifier::external_body]
    fn is_match<H: VpHay + ?Sized>(&self, h: &H) -> (r: bool) ensures r == (self.finds(h.hay()).len() > 0) { unimplemented!() }
}
