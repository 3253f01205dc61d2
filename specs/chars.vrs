// --- texts by their characters: assumed contracts on std, by its documentation ---------
/// A one-character pattern.
trait VpPat1: Sized { spec fn p1(self) -> Seq<char>; }
impl VpPat1 for char { spec fn p1(self) -> Seq<char> { seq![self] } }
impl VpPat1 for &str { spec fn p1(self) -> Seq<char> { self@ } }
/// What `contains` looks for: a character, one of several, or a text.
trait VpAny: Sized { spec fn within(self, s: Seq<char>) -> bool; }
impl VpAny for char { spec fn within(self, s: Seq<char>) -> bool { s.contains(self) } }
impl<const N: usize> VpAny for [char; N] { spec fn within(self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && self@.contains(#[trigger] s[i]) } }
impl VpAny for &str { spec fn within(self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - self@.len() && #[trigger] s.subrange(i, i + self@.len()) == self@ } }
/// `s` cut at each `c`.
spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] } else {
        let p = split(s.drop_last(), c);
        if s.last() == c { p.push(Seq::<char>::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
/// The parts with `c` between them.
spec fn join(l: Seq<Seq<char>>, c: char) -> Seq<char> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { join(l.drop_last(), c).push(c) + l.last() }
}
/// `s` with each `c` replaced by `t`.
spec fn repl(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { repl(s.drop_last(), c, t) + if s.last() == c { t } else { seq![s.last()] } }
}
spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }

/// White space at the start of `s`.
spec fn lead_ws(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && is_ws(s[0]) { 1 + lead_ws(s.skip(1)) } else { 0 } }
/// `s` without the white space around it.
spec fn trim(s: Seq<char>) -> Seq<char> { let t = s.take(trimmed(s) as int); t.skip(lead_ws(t) as int) }
trait VpTxt {
    spec fn tx(&self) -> Seq<char>;
    fn cp_contains<P: VpAny>(&self, p: P) -> (r: bool) ensures r == p.within(self.tx());
    fn cp_starts_with<P: VpPat1>(&self, p: P) -> (r: bool) ensures r == starts(self.tx(), p.p1());
    fn cp_ends_with<P: VpPat1>(&self, p: P) -> (r: bool) ensures r == ends(self.tx(), p.p1());
    fn cp_replace<P: VpPat1>(&self, p: P, t: &str) -> (r: String) requires p.p1().len() == 1 ensures r@ == repl(self.tx(), p.p1()[0], t@);
    fn cp_split<P: VpPat1>(&self, c: P) -> (r: VpParts) requires c.p1().len() == 1 ensures r.parts() == split(self.tx(), c.p1()[0]), r.k() == 0;
    fn cp_trim(&self) -> (r: &str) ensures r@ == trim(self.tx());
    fn cp_as_str(&self) -> (r: &str) ensures r@ == self.tx();
}
macro_rules! vp_txt { ($t:ty) => { verus! {
impl VpTxt for $t {
    spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn cp_contains<P: VpAny>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_starts_with<P: VpPat1>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_ends_with<P: VpPat1>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_replace<P: VpPat1>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn cp_split<P: VpPat1>(&self, c: P) -> (r: VpParts) { unimplemented!() }
    #[verifier::external_body] fn cp_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn cp_as_str(&self) -> (r: &str) { unimplemented!() }
} } } }
vp_txt!(str);
vp_txt!(String);

/// An iterator over texts.
#[verifier::external_body]
struct VpParts { x: usize }
impl VpParts {
    uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn vp_filter<F: Fn(&&str) -> bool>(self, f: F) -> (r: Self)
        requires forall|x: &str| f.requires((&x,)), self.k() == 0
        ensures r.k() == 0, forall|p: spec_fn(Seq<char>) -> bool| (forall|x: &str, o: bool| #[trigger] f.ensures((&x,), o) ==> o == p(x@)) ==> r.parts() == #[trigger] self.parts().filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_map<F: Fn(&str) -> String>(self, f: F) -> (r: VpStrings)
        requires forall|x: &str| f.requires((x,)), self.k() == 0
        ensures (forall|x: &str, o: String| #[trigger] f.ensures((x,), o) ==> o@ == x@) ==> r.parts() == self.parts()
    { unimplemented!() }
}
impl VpParts {
    #[verifier::external_body]
    fn vp_enumerate(self) -> (r: VpEnum) requires self.k() == 0 ensures r.parts() == self.parts(), r.k() == 0 { unimplemented!() }
}
/// `enumerate` over texts.
#[verifier::external_body]
struct VpEnum { x: usize }
impl VpEnum {
    uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next<'a>(&mut self) -> (r: Option<(usize, &'a str)>)
        requires 0 <= old(self).k() <= old(self).parts().len()
        ensures
            final(self).parts() == old(self).parts(), (r is Some) == (old(self).k() < old(self).parts().len()),
            r is Some ==> (r->0).0 == old(self).k() && (r->0).1@ == old(self).parts()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
}
#[verifier::external_body]
struct VpStrings { x: usize }
impl VpStrings {
    uninterp spec fn parts(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn vp_collect(self) -> (r: Vec<String>) ensures views(r@) == self.parts() { unimplemented!() }
}
spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }

/// `Vec::into_iter`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VpVecIter<T> { x: Vec<T> }
impl<T> VpVecIter<T> {
    uninterp spec fn s(&self) -> Seq<T>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures
            final(self).s() == old(self).s(), (r is Some) == (old(self).k() < old(self).s().len()),
            r is Some ==> r->0 == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vp_into_iter<T>(v: Vec<T>) -> (r: VpVecIter<T>) ensures r.s() == v@, r.k() == 0 { unimplemented!() }

/// `slice::Iter`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VpSlIter<'a, T> { x: &'a [T] }
impl<'a, T> VpSlIter<'a, T> {
    uninterp spec fn s(&self) -> Seq<T>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures
            final(self).s() == old(self).s(), (r is Some) == (old(self).k() < old(self).s().len()),
            r is Some ==> *(r->0) == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vp_slice_iter<'a, T>(v: &'a [T]) -> (r: VpSlIter<'a, T>) ensures r.s() == v@, r.k() == 0 { unimplemented!() }

/// `[String]::join` with a one-character separator.
trait VpJoin { spec fn vs(&self) -> Seq<Seq<char>>; fn vp_join(&self, c: &str) -> (r: String) requires c@.len() == 1 ensures r@ == join(self.vs(), c@[0]); }
impl VpJoin for [String] { spec fn vs(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vp_join(&self, c: &str) -> (r: String) { unimplemented!() } }
impl VpJoin for Vec<&str> { spec fn vs(&self) -> Seq<Seq<char>> { self@.map_values(|x: &str| x@) } #[verifier::external_body] fn vp_join(&self, c: &str) -> (r: String) { unimplemented!() } }
impl VpJoin for Vec<String> { spec fn vs(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vp_join(&self, c: &str) -> (r: String) { unimplemented!() } }

trait VpDefault: Sized { spec fn df(&self) -> Seq<char>; type O: VpDisplay; fn vp_unwrap_or_default(self) -> (r: Self::O) ensures r.disp() == self.df(); }
impl VpDefault for Option<String> { type O = String; spec fn df(&self) -> Seq<char> { match *self { Some(s) => s@, None => Seq::empty() } } #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: String) { unimplemented!() } }
impl<'a> VpDefault for Option<&'a str> { type O = &'a str; spec fn df(&self) -> Seq<char> { match *self { Some(s) => s@, None => Seq::empty() } } #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: &'a str) { unimplemented!() } }
trait VpAsDeref { spec fn ad(&self) -> Option<Seq<char>>; fn vp_as_deref(&self) -> (r: Option<&str>) ensures (match r { Some(s) => Some(s@), None => None }) == self.ad(); }
impl VpAsDeref for Option<String> { spec fn ad(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vp_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
#[verifier::external_body]
fn vp_vec_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures (r is Some) == (v@.len() > 0), r is Some ==> *(r->0) == v@.last() { unimplemented!() }

uninterp spec fn saddr(s: &String) -> int;
impl VpStr for String {
    spec fn b(&self) -> Seq<u8> { encode_utf8(self@) }
    spec fn c(&self) -> Seq<char> { self@ }
    spec fn ad(&self) -> int { saddr(self) }
    #[verifier::external_body] fn vp_slice(&self, a: usize, z: usize) -> (r: &str) { &self[a..z] }
    #[verifier::external_body] fn vp_slice_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn vp_slice_to(&self, z: usize) -> (r: &str) { &self[..z] }
    #[verifier::external_body] fn vp_slice_rng<R: VpRange>(&self, g: R) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vp_trim_end_matches(&self, c: char) -> (r: &str) { self.trim_end_matches(c) }
    #[verifier::external_body] fn vp_trim_start_matches(&self, c: char) -> (r: &str) { self.trim_start_matches(c) }
    #[verifier::external_body] fn vp_trim_end(&self) -> (r: &str) { self.trim_end() }
}
/// Cutting a text's bytes at a character is cutting its characters.
proof fn lemma_cut(s: Seq<char>)
    ensures
        forall|r: &str, k: int| 0 <= k <= s.len() && #[trigger] r.spec_bytes() =~= encode_utf8(s).subrange(#[trigger] off(s, k), encode_utf8(s).len() as int) ==> r@ == s.skip(k),
        forall|k: int| 0 <= k <= s.len() ==> 0 <= #[trigger] off(s, k) <= encode_utf8(s).len() && bdy(encode_utf8(s), off(s, k)),
{
    assert forall|r: &str, k: int| 0 <= k <= s.len() && #[trigger] r.spec_bytes() =~= encode_utf8(s).subrange(#[trigger] off(s, k), encode_utf8(s).len() as int) implies r@ == s.skip(k) by { lemma_off(s, k); lemma_view(r, s.skip(k)); }
    assert forall|k: int| 0 <= k <= s.len() implies 0 <= #[trigger] off(s, k) <= encode_utf8(s).len() && bdy(encode_utf8(s), off(s, k)) by { lemma_off(s, k); }
}

/// Cutting off an ASCII character at either end.
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn lemma_cut_ends(s: &str)
    ensures
        s@.len() > 0 && (s@[0] as u32) < 128 ==> s.spec_bytes().len() >= 1 && bdy(s.spec_bytes(), 1)
            && forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(1, s.spec_bytes().len() as int) ==> r@ == s@.skip(1),
        s@.len() > 0 && (s@.last() as u32) < 128 ==> s.spec_bytes().len() >= 1 && bdy(s.spec_bytes(), s.spec_bytes().len() - 1)
            && forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(0, s.spec_bytes().len() - 1) ==> r@ == s@.drop_last(),
{
    let c = s@;
    if c.len() > 0 {
        lemma_off(c, 0); lemma_off(c, 1); lemma_off_next(c, 0);
        lemma_off(c, c.len() as int); lemma_off(c, c.len() - 1); lemma_off_next(c, c.len() - 1);
        assert(c.take(c.len() as int) =~= c);
        assert(c.take(c.len() - 1) =~= c.drop_last());
        if (c[0] as u32) < 128 {
            assert forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(1, s.spec_bytes().len() as int) implies r@ == c.skip(1) by { lemma_view(r, c.skip(1)); }
        }
        if (c.last() as u32) < 128 {
            assert forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(0, s.spec_bytes().len() - 1) implies r@ == c.drop_last() by { lemma_view(r, c.drop_last()); }
        }
    }
}
/// A text without the separator is its only part.
proof fn lemma_split_one(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures split(s, c) =~= seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        assert(!s.drop_last().contains(c)) by { if s.drop_last().contains(c) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == c; assert(s[i] == c); } }
        lemma_split_one(s.drop_last(), c);
        assert(s.last() != c) by { assert(s[s.len() - 1] == s.last()); }
        let p = split(s.drop_last(), c);
        assert(p == seq![s.drop_last()]);
        assert(p.drop_last().push(p.last().push(s.last())) =~= seq![s]) by { assert(p.last() == s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); }
    } else { assert(s =~= Seq::empty()); }
}
proof fn lemma_trim_id(s: Seq<char>)
    ensures s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) ==> trim(s) =~= s
{}
/// Cutting off `n` ASCII characters at the end.
proof fn lemma_cut_tail(s: &str, n: int)
    requires 0 <= n <= s@.len(), ascii_chars(s@.skip(s@.len() - n))
    ensures
        s.spec_bytes().len() >= n, bdy(s.spec_bytes(), s.spec_bytes().len() - n),
        forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(0, s.spec_bytes().len() - n) ==> r@ == s@.take(s@.len() - n),
{
    let k = s@.len() - n;
    lemma_off(s@, k);
    lemma_ascii_seq(s@.skip(k));
    assert(s.spec_bytes().len() - off(s@, k) == n);
    assert forall|r: &str| #[trigger] r.spec_bytes() =~= s.spec_bytes().subrange(0, s.spec_bytes().len() - n) implies r@ == s@.take(k) by { lemma_view(r, s@.take(k)); }
}
