// --- C13: what an element attribute gives -------------------------------------------------
/// An item of a shorthand: from one cut to the next, without white space at its end.
spec fn piece(t: Seq<char>, c: Seq<int>, n: int) -> Seq<char> { let p = t.subrange(c[n], if n + 1 < c.len() { c[n + 1] } else { t.len() as int }); p.take(trimmed(p) as int) }
/// An item that says something.
spec fn kept(p: Seq<char>) -> bool { p.len() > 0 && !(p.len() == 1 && delim(p[0])) }
spec fn items_from(t: Seq<char>, c: Seq<int>, n: int) -> Seq<Seq<char>> decreases c.len() - n {
    if 0 <= n < c.len() { (if kept(piece(t, c, n)) { seq![piece(t, c, n)] } else { Seq::empty() }) + items_from(t, c, n + 1) } else { Seq::empty() }
}
spec fn items(t: Seq<char>) -> Seq<Seq<char>> { items_from(t, cuts(t), 0) }
spec fn has_delim(p: Seq<char>) -> bool { exists|i: int| 0 <= i < p.len() && delim(#[trigger] p[i]) }
spec fn lead_c(c: char) -> spec_fn(Seq<char>) -> bool { |p: Seq<char>| p.len() > 0 && p[0] == c }
spec fn lead_s<'a>(c: char) -> spec_fn(&'a str) -> bool { |p: &'a str| lead_c(c)(p@) }
/// The items that begin with `c`, without it.
spec fn marked(l: Seq<Seq<char>>, c: char) -> Seq<Seq<char>> { l.filter(lead_c(c)).map_values(|p: Seq<char>| p.skip(1)) }
impl<'a> ElementAttribute<'a> {
    spec fn nm(&self) -> Option<Seq<char>> { match self.name { Some(n) => Some(n.t()), None => None } }
    spec fn vl(&self) -> Seq<char> { self.value.t() }
    /// What the attribute list's parser makes.
    spec fn ok(&self) -> bool { self.shorthand_item_indices@.len() == 0 || ints(self.shorthand_item_indices@) == offs(self.vl(), cuts(self.vl())) }
    spec fn its(&self) -> Seq<Seq<char>> { if self.shorthand_item_indices@.len() == 0 { Seq::empty() } else { items(self.vl()) } }
    spec fn sty(&self) -> Option<Seq<char>> { if self.its().len() > 0 && !has_delim(self.its()[0]) { Some(self.its()[0]) } else { None } }
    spec fn idv(&self) -> Option<Seq<char>> { match first_of(self.its(), lead_c('#')) { Some(p) => Some(p.skip(1)), None => None } }
}
spec fn tx(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

proof fn lemma_dels(t: Seq<char>, i: int)
    requires 0 <= i
    ensures
        forall|a: int| 0 <= a < dels(t, i).len() ==> i <= #[trigger] dels(t, i)[a] < t.len(),
        forall|a: int, b: int| 0 <= a < b < dels(t, i).len() ==> #[trigger] dels(t, i)[a] < #[trigger] dels(t, i)[b],
    decreases t.len() - i
{
    if i < t.len() {
        lemma_dels(t, i + 1);
        let (d, e) = (dels(t, i), dels(t, i + 1));
        if delim(t[i]) {
            assert forall|a: int| 0 <= a < d.len() implies i <= #[trigger] d[a] < t.len() by { if a > 0 { assert(d[a] == e[a - 1]); } }
            assert forall|a: int, b: int| 0 <= a < b < d.len() implies #[trigger] d[a] < #[trigger] d[b] by { assert(d[b] == e[b - 1]); if a > 0 { assert(d[a] == e[a - 1]); } }
        }
    }
}
/// Cuts are in order.
proof fn lemma_cuts(t: Seq<char>)
    ensures
        forall|a: int| 0 <= a < cuts(t).len() ==> 0 <= #[trigger] cuts(t)[a] <= t.len(),
        forall|a: int, b: int| 0 <= a < b < cuts(t).len() ==> #[trigger] cuts(t)[a] <= #[trigger] cuts(t)[b],
{ lemma_dnext_is(t, 0); lemma_dels(t, dnext(t, 0)); lemma_sp_lead(t.take(dnext(t, 0))); }
/// A part of a text, by its bytes.
proof fn lemma_sub(t: Seq<char>, a: int, z: int)
    requires 0 <= a <= z <= t.len()
    ensures
        0 <= off(t, a) <= off(t, z) <= encode_utf8(t).len(), bdy(encode_utf8(t), off(t, a)), bdy(encode_utf8(t), off(t, z)),
        off(t, t.len() as int) == encode_utf8(t).len(),
        forall|r: &str| #[trigger] r.spec_bytes() =~= encode_utf8(t).subrange(off(t, a), off(t, z)) ==> r@ == t.subrange(a, z),
{
    lemma_off(t, a); lemma_off(t, z);
    assert(t.take(t.len() as int) =~= t);
    let u = t.take(z);
    assert(u.take(a) =~= t.take(a));
    lemma_off(u, a);
    assert(u.skip(a) =~= t.subrange(a, z));
    assert(encode_utf8(u) =~= encode_utf8(t).take(off(t, z)));
    assert(encode_utf8(t).subrange(off(t, a), off(t, z)) =~= encode_utf8(u).skip(off(t, a)));
    assert forall|r: &str| #[trigger] r.spec_bytes() =~= encode_utf8(t).subrange(off(t, a), off(t, z)) implies r@ == t.subrange(a, z) by { lemma_view(r, t.subrange(a, z)); }
}

proof fn lemma_starts1(s: Seq<char>, c: char) ensures starts(s, seq![c]) == lead_c(c)(s) { if s.len() > 0 { assert(s.take(1)[0] == s[0]); if s[0] == c { assert(s.take(1) =~= seq![c]); } } }
proof fn lemma_marked(c: char)
    ensures
        mark(lead_s(c)),
        forall|s: Seq<&str>| txts(#[trigger] s.filter(lead_s(c))) == txts(s).filter(lead_c(c)),
        forall|s: Seq<&str>, i: int| 0 <= i < s.filter(lead_s(c)).len() ==> lead_c(c)((#[trigger] s.filter(lead_s(c))[i])@),
        forall|s: Seq<&str>, r: Seq<&str>| #![trigger s.filter(lead_s(c)), txts(r)] r.len() == s.filter(lead_s(c)).len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == s.filter(lead_s(c))[i]@.skip(1)) ==> txts(r) == marked(txts(s), c),
{
    assert forall|s: Seq<&str>| txts(#[trigger] s.filter(lead_s(c))) == txts(s).filter(lead_c(c)) by {
        lemma_filter_txts(s, lead_c(c));
        assert(lead_s(c) =~= |x: &str| lead_c(c)(x@));
    }
    assert forall|s: Seq<&str>, i: int| 0 <= i < s.filter(lead_s(c)).len() implies lead_c(c)((#[trigger] s.filter(lead_s(c))[i])@) by { lemma_all(s, lead_s(c)); }
    assert forall|s: Seq<&str>, r: Seq<&str>| #![trigger s.filter(lead_s(c)), txts(r)] r.len() == s.filter(lead_s(c)).len() && (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == s.filter(lead_s(c))[i]@.skip(1)) implies txts(r) == marked(txts(s), c) by {
        let f = s.filter(lead_s(c));
        assert forall|i: int| 0 <= i < f.len() implies txts(r)[i] == marked(txts(s), c)[i] by { assert(txts(f)[i] == f[i]@); assert(r[i]@ == f[i]@.skip(1)); }
        assert(txts(f).len() == f.len());
        assert(txts(r) =~= marked(txts(s), c));
    }
}

//@fn attributes/element_attribute.rs | ElementAttribute::name
//@ spec:
    ensures tx(r) == self.nm()
//@end
//@fn attributes/element_attribute.rs | ElementAttribute::value
//@ spec:
    ensures r@ == self.vl()
//@end
//@fn attributes/element_attribute.rs | ElementAttribute::shorthand_items
//@ eqs:
//@ spec:
    requires self.ok()
    ensures txts(r@) == self.its()
//@ start:
    let ghost (t, c, x) = (self.vl(), cuts(self.vl()), self.shorthand_item_indices@);
    proof {
        lemma_cuts(t);
        reveal_strlit("#"); reveal_strlit("."); reveal_strlit("%");
        assert forall|v: Seq<&str>, p: &str| txts(#[trigger] v.push(p)) == txts(v).push(p@) by { assert(txts(v.push(p)) =~= txts(v).push(p@)); }
        if x.len() > 0 {
            assert(ints(x).len() == x.len());
            assert forall|a: int| 0 <= a < x.len() implies #[trigger] x[a] == off(t, c[a]) by { assert(ints(x)[a] == off(t, c[a])); }
        }
        assert(txts(Seq::empty()) =~= Seq::empty());
    }
//@ loop 0:
    invariant
        self.ok(), t == self.vl(), c == cuts(t), x == self.shorthand_item_indices@, value@ == t,
        iter.s() == x, 0 <= iter.k() <= x.len(),
        forall|v: Seq<&str>, p: &str| txts(#[trigger] v.push(p)) == txts(v).push(p@),
        x.len() > 0 ==> c.len() == x.len() && txts(result@) + items_from(t, c, iter.k()) == items(t),
        x.len() == 0 ==> result@.len() == 0,
        forall|a: int| 0 <= a < x.len() ==> #[trigger] x[a] == off(t, c[a]),
        forall|a: int| 0 <= a < c.len() ==> 0 <= #[trigger] c[a] <= t.len(),
        forall|a: int, b: int| 0 <= a < b < c.len() ==> #[trigger] c[a] <= #[trigger] c[b],
        "#"@ =~= seq!['#'], "."@ =~= seq!['.'], "%"@ =~= seq!['%'],
    decreases x.len() - iter.k()
//@ loop 0 start:
    proof {
        let n = iter.k() - 1;
        lemma_sub(t, c[n], if n + 1 < c.len() { c[n + 1] } else { t.len() as int });
        lemma_sub(t, c[n], t.len() as int);
        lemma_off(t, c[n]);
        assert forall|v: Seq<Seq<char>>| kept(piece(t, c, n)) implies #[trigger] v.push(piece(t, c, n)) + items_from(t, c, n + 1) == v + items_from(t, c, n) by { assert(v.push(piece(t, c, n)) + items_from(t, c, n + 1) =~= v + items_from(t, c, n)); }
        let q = piece(t, c, n);
        assert(q == seq!['#'] || q == seq!['.'] || q == seq!['%'] <==> q.len() == 1 && delim(q[0])) by { if q.len() == 1 { assert(q =~= seq![q[0]]); } }
        if !kept(q) { assert(Seq::empty() + items_from(t, c, n + 1) =~= items_from(t, c, n + 1)); }
    }
//@end

//@fn attributes/element_attribute.rs | ElementAttribute::block_style
//@ rename cloned: vp_cloned_ref
//@ spec:
    requires self.ok()
    ensures tx(r) == self.sty()
//@ closure 0 params: v: &&&'src str
//@ closure 0:
    -> (o: bool) ensures o == !has_delim((**v)@)
//@end
//@fn attributes/element_attribute.rs | ElementAttribute::id
//@ spec:
    requires self.ok()
    ensures tx(r) == self.idv()
//@ start:
    proof {
        reveal_strlit("#");
        assert(mark(lead_s('#')));
        assert forall|s: Seq<&str>| true implies (#[trigger] first_of(s, lead_s('#')) is Some) == (first_of(txts(s), lead_c('#')) is Some)
            && (first_of(txts(s), lead_c('#')) is Some ==> (first_of(s, lead_s('#'))->0)@ == first_of(txts(s), lead_c('#'))->0 && lead_c('#')(first_of(txts(s), lead_c('#'))->0)) by {
            lemma_first_txts(s, lead_c('#'));
            assert(lead_s('#') =~= |x: &str| lead_c('#')(x@));
        }
    }
//@ closure 0 params: v: &&&'src str
//@ closure 0:
    -> (o: bool) ensures o == lead_c('#')((**v)@)
//@ closure 0 bind: proof { lemma_starts1((**v)@, '#'); }
//@ closure 1 params: v: &&'src str
//@ closure 1:
    -> (o: &'src str) requires lead_c('#')((**v)@) ensures o@ == (**v)@.skip(1)
//@ closure 1 bind: proof { lemma_cut_ends(*v); }
//@end
//@fn attributes/element_attribute.rs | ElementAttribute::roles
//@ spec:
    requires self.ok()
    ensures txts(r@) == marked(self.its(), '.')
//@ start:
    proof { lemma_marked('.'); }
//@ closure 0 params: span: &&&'src str
//@ closure 0:
    -> (o: bool) ensures o == lead_c('.')((**span)@)
//@ closure 0 bind: proof { lemma_starts1((**span)@, '.'); }
//@ closure 1 params: span: &&'src str
//@ closure 1:
    -> (o: &'src str) requires lead_c('.')((**span)@) ensures o@ == (**span)@.skip(1)
//@ closure 1 bind: proof { lemma_cut_ends(*span); }
//@ exit:
    assert(txts(__vp_r@) =~= marked(self.its(), '.'));
//@end
//@fn attributes/element_attribute.rs | ElementAttribute::options
//@ spec:
    requires self.ok()
    ensures txts(r@) == marked(self.its(), '%')
//@ start:
    proof { lemma_marked('%'); }
//@ closure 0 params: v: &&&'src str
//@ closure 0:
    -> (o: bool) ensures o == lead_c('%')((**v)@)
//@ closure 0 bind: proof { lemma_starts1((**v)@, '%'); }
//@ closure 1 params: v: &&'src str
//@ closure 1:
    -> (o: &'src str) requires lead_c('%')((**v)@) ensures o@ == (**v)@.skip(1)
//@ closure 1 bind: proof { lemma_cut_ends(*v); }
//@ exit:
    assert(txts(__vp_r@) =~= marked(self.its(), '%'));
//@end
