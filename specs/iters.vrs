// --- iterators over slices: assumed contracts on std, by its documentation -------------
trait VpIterable<T> { spec fn els(&self) -> Seq<T>; fn it_iter(&self) -> (r: VpIt<'_, T>) ensures r.s() == self.els(), r.k() == 0; fn it_first(&self) -> (r: Option<&T>) ensures (r is Some) == (self.els().len() > 0), r is Some ==> *(r->0) == self.els()[0]; }
impl<T> VpIterable<T> for Vec<T> { spec fn els(&self) -> Seq<T> { self@ } #[verifier::external_body] fn it_iter(&self) -> (r: VpIt<'_, T>) { unimplemented!() } #[verifier::external_body] fn it_first(&self) -> (r: Option<&T>) { unimplemented!() } }
/// An iterator that gives references to `s()`, of which it has given `k()`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VpIt<'a, T> { x: &'a [T] }
impl<'a, T> VpIt<'a, T> {
    uninterp spec fn s(&self) -> Seq<T>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures
            final(self).s() == old(self).s(), (r is Some) == (old(self).k() < old(self).s().len()),
            r is Some ==> *(r->0) == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
    fn vp_peekable(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&&'a T>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures *final(self) == *old(self), (r is Some) == (old(self).k() < old(self).s().len()), r is Some ==> **(r->0) == old(self).s()[old(self).k()]
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_find<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Option<&'a T>)
        requires self.k() == 0, forall|i: int| 0 <= i < self.s().len() ==> f.requires((&&#[trigger] self.s()[i],))
        ensures forall|p: spec_fn(T) -> bool| #[trigger] mark(p) && (forall|x: &&'a T, o: bool| #[trigger] f.ensures((x,), o) ==> o == p(**x)) ==> found(self.s(), p, r)
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_filter<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Self)
        requires self.k() == 0, forall|i: int| 0 <= i < self.s().len() ==> f.requires((&&#[trigger] self.s()[i],))
        ensures r.k() == 0, forall|p: spec_fn(T) -> bool| #[trigger] mark(p) && (forall|x: &&'a T, o: bool| #[trigger] f.ensures((x,), o) ==> o == p(**x)) ==> r.s() == self.s().filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    fn nth(self, n: usize) -> (r: Option<&'a T>)
        requires self.k() == 0
        ensures (r is Some) == (n < self.s().len()), r is Some ==> *(r->0) == self.s()[n as int]
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_map<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: VpGen<U>)
        requires self.k() == 0, forall|i: int| 0 <= i < self.s().len() ==> f.requires((&#[trigger] self.s()[i],))
        ensures r.s().len() == self.s().len(), forall|i: int| 0 <= i < r.s().len() ==> f.ensures((&self.s()[i],), #[trigger] r.s()[i])
    { unimplemented!() }
}
/// A choice that the contracts above are wanted for.
spec fn mark<T>(p: spec_fn(T) -> bool) -> bool { true }
/// The first that `p` holds for.
spec fn found<T>(s: Seq<T>, p: spec_fn(T) -> bool, r: Option<&T>) -> bool { match r { Some(x) => first_of(s, p) == Some(*x), None => first_of(s, p) is None } }
spec fn first_of<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Option<T> decreases s.len() { if s.len() == 0 { None } else if p(s[0]) { Some(s[0]) } else { first_of(s.skip(1), p) } }
#[verifier::external_body]
#[verifier::reject_recursive_types(U)]
struct VpGen<U> { x: Vec<U> }
impl<U> VpGen<U> { uninterp spec fn s(&self) -> Seq<U>; #[verifier::external_body] fn collect(self) -> (r: Vec<U>) ensures r@ == self.s() { unimplemented!() } }
/// `str::chars`
#[verifier::external_body] struct VpCh { x: usize }
impl VpCh {
    uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body]
    fn any<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,))
        ensures r ==> exists|i: int| 0 <= i < self.s().len() && f.ensures((#[trigger] self.s()[i],), true), !r ==> forall|i: int| 0 <= i < self.s().len() ==> f.ensures((#[trigger] self.s()[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures (r is Some) == (old(self).s().len() > 0), r is Some ==> r->0 == old(self).s()[0] && final(self).s() == old(self).s().skip(1), r is None ==> final(self).s() == old(self).s()
    { unimplemented!() }
}
trait VpCharsOf { spec fn chs(&self) -> Seq<char>; fn vp_chars(&self) -> (r: VpCh) ensures r.s() == self.chs(); }
impl VpCharsOf for str { spec fn chs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_chars(&self) -> (r: VpCh) { unimplemented!() } }
/// `Option<&T>::cloned` on references, `unwrap_or_default` on lists
trait VpClonedRef<T> { fn vp_cloned_ref(self) -> Option<T>; }
impl<'b, 'a> VpClonedRef<&'a str> for Option<&'b &'a str> { fn vp_cloned_ref(self) -> (r: Option<&'a str>) ensures (r is Some) == (self is Some), r is Some ==> r->0 == *(self->0) { match self { Some(x) => Some(*x), None => None } } }
trait VpOrEmpty<T>: Sized { spec fn oe(self) -> Seq<T>; fn vp_or_empty(self) -> (r: Vec<T>) ensures r@ == self.oe(); }
impl<T> VpOrEmpty<T> for Option<Vec<T>> { spec fn oe(self) -> Seq<T> { match self { Some(v) => v@, None => Seq::empty() } } #[verifier::external_body] fn vp_or_empty(self) -> (r: Vec<T>) { unimplemented!() } }
spec fn txts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
/// Choosing from texts is choosing from what they hold.
proof fn lemma_filter_txts(s: Seq<&str>, p: spec_fn(Seq<char>) -> bool)
    ensures txts(s.filter(|x: &str| p(x@))) =~= txts(s).filter(p)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_filter_txts(s.drop_last(), p);
        assert(txts(s).drop_last() =~= txts(s.drop_last()));
        let q = |x: &str| p(x@);
        assert(txts(s).last() == s.last()@);
        let f = s.drop_last().filter(q);
        if p(s.last()@) { assert(txts(f.push(s.last())) =~= txts(f).push(s.last()@)); }
    }
}
proof fn lemma_first_txts(s: Seq<&str>, p: spec_fn(Seq<char>) -> bool)
    ensures
        (first_of(s, |x: &str| p(x@)) is Some) == (first_of(txts(s), p) is Some),
        first_of(txts(s), p) is Some ==> (first_of(s, |x: &str| p(x@))->0)@ == first_of(txts(s), p)->0 && p(first_of(txts(s), p)->0),
    decreases s.len()
{ if s.len() > 0 { lemma_first_txts(s.skip(1), p); assert(txts(s).skip(1) =~= txts(s.skip(1))); assert(txts(s)[0] == s[0]@); } }
proof fn lemma_all(s: Seq<&str>, p: spec_fn(&str) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_all(s.drop_last(), p); }
}
