// ---------------------------------------------------------------------------
// Hash maps keyed by strings, and formatted text: assumed contracts on std.
// ---------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
struct HashMap<K, V> { k: Vec<(K, V)> }
trait VpKey: Sized { spec fn key(self) -> Seq<char>; }
impl VpKey for &str { spec fn key(self) -> Seq<char> { self@ } }
impl VpKey for &String { spec fn key(self) -> Seq<char> { self@ } }
impl<V> HashMap<String, V> {
    uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key<Q: VpKey>(&self, k: Q) -> (r: bool) ensures r == self.m().dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    fn get<Q: VpKey>(&self, k: Q) -> (r: Option<&V>)
        ensures (r is Some) == self.m().dom().contains(k.key()), r is Some ==> *(r->0) == self.m()[k.key()]
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k@, v)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(k@), (r is Some) == old(self).m().dom().contains(k@), r is Some ==> r->0 == old(self).m()[k@]
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.m().dom().len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.m().dom().len() == 0) { unimplemented!() }
    /// `entry(k).or_insert_with(f)`
    #[verifier::external_body]
    fn vp_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: String, f: F)
        requires f.requires(())
        ensures
            old(self).m().dom().contains(k@) ==> final(self).m() == old(self).m(),
            !old(self).m().dom().contains(k@) ==> final(self).m().dom() == old(self).m().dom().insert(k@) && f.ensures((), final(self).m()[k@])
                && forall|x: Seq<char>| x != k@ && old(self).m().dom().contains(x) ==> #[trigger] final(self).m()[x] == old(self).m()[x],
    { unimplemented!() }
    #[verifier::external_body]
    fn vp_entry_or_insert(&mut self, k: String, v: V)
        ensures final(self).m() == (if old(self).m().dom().contains(k@) { old(self).m() } else { old(self).m().insert(k@, v) })
    { unimplemented!() }
}
/// What a value displays as.
/// `to_string` gives it.
trait VpDisplay { spec fn disp(&self) -> Seq<char>; fn vp_to_string(&self) -> (r: String) ensures r@ == self.disp(); }
impl VpDisplay for str { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for &str { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for &&str { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for String { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for &String { spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for char { spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for i32 { spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl VpDisplay for usize { spec fn disp(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
/// Decimal numerals.
uninterp spec fn dec(n: int) -> Seq<char>;
axiom fn axiom_dec(a: int, b: int)
    ensures dec(a) == dec(b) ==> a == b, dec(a).len() > 0;
#[verifier::external_body]
fn vp_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
fn vp_fmt_lit(s: String, l: &str) -> (r: String) ensures r@ == s@ + l@ { unimplemented!() }
#[verifier::external_body]
fn vp_fmt<D: VpDisplay>(s: String, d: &D) -> (r: String) ensures r@ == s@ + d.disp() { unimplemented!() }

/// `str::to_owned`, `to_string`
trait VpOwned { spec fn txt(&self) -> Seq<char>; fn vp_to_owned(&self) -> (r: String) ensures r@ == self.txt(); }
impl VpOwned for str { spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VpOwned for String { spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_owned(&self) -> (r: String) { unimplemented!() } }
/// `Option<&String>::cloned`
trait VpCloned: Sized { spec fn oc(&self) -> Option<Seq<char>>; fn vp_cloned(self) -> (r: Option<String>) ensures (r is Some) == (self.oc() is Some), r is Some ==> (r->0)@ == self.oc()->0; }
impl VpCloned for Option<&String> { spec fn oc(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } } #[verifier::external_body] fn vp_cloned(self) -> (r: Option<String>) { unimplemented!() } }
