// --- C07: the catalog -----------------------------------------------------------
//@type document/catalog.rs | RefType derive=Clone,PartialEq,Eq,Structural
//@type document/catalog.rs | RefEntry
//@type document/catalog.rs | DuplicateIdError
//@type document/catalog.rs | Catalog

spec fn otxt(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn ostr(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

/// What is known of one ID.
spec fn is_entry(e: RefEntry, id: Seq<char>, t: Option<Seq<char>>, k: RefType) -> bool { e.id@ == id && ostr(e.reftext) == t && e.ref_type == k }

impl Catalog {
    spec fn ids(&self) -> Set<Seq<char>> { self.refs.m().dom() }
    /// What reference texts resolve to.
    spec fn texts(&self) -> Map<Seq<char>, String> { self.reftext_to_id.m() }
    /// Each entry is filed under its own ID; each reference text resolves to an ID with an entry; each entry's reference text resolves.
    spec fn ok(&self) -> bool {
        &&& forall|i: Seq<char>| #[trigger] self.ids().contains(i) ==> self.refs.m()[i].id@ == i
        &&& forall|t: Seq<char>| #[trigger] self.texts().dom().contains(t) ==> self.ids().contains(self.texts()[t]@) && ostr(self.refs.m()[self.texts()[t]@].reftext) == Some(t)
        &&& forall|i: Seq<char>| #[trigger] self.ids().contains(i) && ostr(self.refs.m()[i].reftext) is Some ==> self.texts().dom().contains(ostr(self.refs.m()[i].reftext)->0)
    }
}

/// `z` is `a` with `id` added as given; what was there stays, and so does what the reference texts of `a` resolve to.
spec fn added(a: Catalog, z: Catalog, id: Seq<char>, t: Option<Seq<char>>, k: RefType) -> bool {
    &&& !a.ids().contains(id)
    &&& z.ids() =~= a.ids().insert(id)
    &&& is_entry(z.refs.m()[id], id, t, k)
    &&& forall|i: Seq<char>| #[trigger] a.ids().contains(i) ==> z.refs.m()[i] == a.refs.m()[i]
    &&& match t {
        Some(t) => z.texts().dom() =~= a.texts().dom().insert(t) && (!a.texts().dom().contains(t) ==> z.texts()[t]@ == id),
        None => z.texts().dom() =~= a.texts().dom(),
    }
    &&& forall|x: Seq<char>| #[trigger] a.texts().dom().contains(x) ==> z.texts()[x] == a.texts()[x]
}

proof fn lemma_added(a: Catalog, z: Catalog, id: Seq<char>, t: Option<Seq<char>>, k: RefType)
    ensures a.ok() && added(a, z, id, t, k) ==> z.ok()
{
    if a.ok() && added(a, z, id, t, k) {
        assert forall|x: Seq<char>| #[trigger] z.texts().dom().contains(x) implies z.ids().contains(z.texts()[x]@) && ostr(z.refs.m()[z.texts()[x]@].reftext) == Some(x) by {
            if a.texts().dom().contains(x) { assert(a.ids().contains(a.texts()[x]@)); }
        }
        assert forall|i: Seq<char>| #[trigger] z.ids().contains(i) && ostr(z.refs.m()[i].reftext) is Some implies z.texts().dom().contains(ostr(z.refs.m()[i].reftext)->0) by {
            if i != id { assert(a.ids().contains(i)); }
        }
    }
}

//@fn document/catalog.rs | Catalog::new
//@ spec:
    ensures r.ids() == Set::<Seq<char>>::empty(), r.texts().dom() == Set::<Seq<char>>::empty(), r.ok()
//@end

//@fn document/catalog.rs | Catalog::contains_id
//@ spec:
    ensures r == self.ids().contains(id@)
//@end

//@fn document/catalog.rs | Catalog::get_ref
//@ spec:
    ensures (r is Some) == self.ids().contains(id@), r is Some ==> *(r->0) == self.refs.m()[id@]
//@end

//@fn document/catalog.rs | Catalog::resolve_id
//@ spec:
    ensures (r is Some) == self.texts().dom().contains(reftext@), r is Some ==> (r->0)@ == self.texts()[reftext@]@
//@end

//@fn document/catalog.rs | Catalog::len
//@ spec:
    ensures r == self.ids().len()
//@end

//@fn document/catalog.rs | Catalog::is_empty
//@ spec:
    ensures r == (self.ids().len() == 0)
//@end

//@fn document/catalog.rs | Catalog::register_ref
//@ spec:
    requires old(self).ok()
    ensures
        final(self).ok(),
        (r is Err) == old(self).ids().contains(id@),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> added(*old(self), *final(self), id@, otxt(reftext), ref_type),
//@ closure 0:
    -> (o: String) ensures o@ == s@
//@ closure 1:
    -> (o: String) ensures o@ == id@
//@ exit:
    lemma_added(*old(self), *self, id@, otxt(reftext), ref_type);
//@end

/// The IDs that are tried for a base ID.
spec fn cand(b: Seq<char>, k: int) -> Seq<char> { b + "-"@ + dec(k) }
proof fn lemma_cand(b: Seq<char>, j: int, k: int)
    ensures cand(b, j) == cand(b, k) ==> j == k
{
    axiom_dec(j, k);
    if cand(b, j) == cand(b, k) {
        let n = (b + "-"@).len() as int;
        assert(cand(b, j).skip(n) =~= dec(j));
        assert(cand(b, k).skip(n) =~= dec(k));
    }
}
/// If all of them up to the k-th are taken, then there are that many.
proof fn lemma_tried(s: Set<Seq<char>>, b: Seq<char>, k: int)
    requires k >= 2, forall|j: int| 2 <= j < k ==> s.contains(#[trigger] cand(b, j))
    ensures s.len() >= k - 2
    decreases k
{
    if k > 2 {
        let c = cand(b, k - 1);
        assert(s.contains(c));
        let t = s.remove(c);
        assert forall|j: int| 2 <= j < k - 1 implies t.contains(#[trigger] cand(b, j)) by { lemma_cand(b, j, k - 1); assert(s.contains(cand(b, j))); }
        lemma_tried(t, b, k - 1);
    }
}

//@fn document/catalog.rs | Catalog::generate_and_register_unique_id
//@ spec:
    requires old(self).ok(), old(self).ids().len() < i32::MAX - 2
    ensures
        final(self).ok(),
        added(*old(self), *final(self), r@, otxt(reftext), ref_type),
        // The base if it is free, and otherwise the first numbered one that is.
        !old(self).ids().contains(base_id@) ==> r@ == base_id@,
        old(self).ids().contains(base_id@) ==> exists|k: int| k >= 2 && r@ == cand(base_id@, k) && forall|j: int| 2 <= j < k ==> old(self).ids().contains(#[trigger] cand(base_id@, j)),
//@ attrs: #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)]
//@ loop 0:
    invariant
        *self == *old(self), 2 <= counter <= old(self).ids().len() + 2, old(self).ids().len() < i32::MAX - 2,
        forall|j: int| 2 <= j < counter ==> old(self).ids().contains(#[trigger] cand(base_id@, j)),
    ensures
        ostr(__broke) is Some, !old(self).ids().contains(ostr(__broke)->0), ostr(__broke)->0 == cand(base_id@, counter as int), counter >= 2,
        *self == *old(self), forall|j: int| 2 <= j < counter ==> old(self).ids().contains(#[trigger] cand(base_id@, j)),
    decreases old(self).ids().len() + 2 - counter
//@ loop 0 start:
    proof { reveal_strlit("-"); assert(Seq::<char>::empty() + base_id@ + "-"@ + dec(counter as int) =~= cand(base_id@, counter as int)); }
//@ before counter += 1:
    proof { assert(candidate@ =~= cand(base_id@, counter as int)); lemma_tried(old(self).ids(), base_id@, counter + 1); }
//@ closure 0:
    -> (o: String) ensures o@ == s@
//@ closure 1:
    -> (o: String) ensures o@ == unique_id@
//@ exit:
    lemma_added(*old(self), *self, unique_id@, otxt(reftext), ref_type);
//@end
