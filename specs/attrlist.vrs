// --- C13: what an attribute list gives ----------------------------------------------------
spec fn named_p<'a>(n: Seq<char>) -> spec_fn(ElementAttribute<'a>) -> bool { |a: ElementAttribute<'a>| a.nm() == Some(n) }
spec fn unnamed_p<'a>() -> spec_fn(ElementAttribute<'a>) -> bool { |a: ElementAttribute<'a>| a.nm() is None }
/// The first attribute with that name.
spec fn named<'a>(l: Seq<ElementAttribute<'a>>, n: Seq<char>) -> Option<ElementAttribute<'a>> { first_of(l, named_p(n)) }
/// The attribute at that position among those without a name, counted from 1.
spec fn nth<'a>(l: Seq<ElementAttribute<'a>>, n: int) -> Option<ElementAttribute<'a>> { if 1 <= n <= l.filter(unnamed_p()).len() { Some(l.filter(unnamed_p())[n - 1]) } else { None } }
spec fn at<'a>(o: Option<&ElementAttribute<'a>>) -> Option<ElementAttribute<'a>> { match o { Some(a) => Some(*a), None => None } }
/// One after the other.
#[verifier::opaque]
spec fn cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> Seq<Seq<char>> { a + b }
/// The longest runs without `c`.
spec fn is_c(c: char) -> spec_fn(char) -> bool { |x: char| x == c }
spec fn not_c(c: char) -> spec_fn(char) -> bool { |x: char| x != c }
spec fn lead_n(s: Seq<char>, c: char) -> int { run_c(s, is_c(c)) }
spec fn upto(s: Seq<char>, c: char) -> int { run_c(s, not_c(c)) }
#[verifier::opaque]
spec fn words(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len(), 1nat
    via words_dec
{
    let t = s.skip(lead_n(s, c));
    if t.len() == 0 { Seq::empty() } else { seq![t.take(upto(t, c))] + words(t.skip(upto(t, c)), c) }
}
#[via_fn]
proof fn words_dec(s: Seq<char>, c: char) { lemma_run_c(s, is_c(c)); let t = s.skip(lead_n(s, c)); lemma_run_c(t, not_c(c)); reveal_with_fuel(run_c, 2); }
proof fn lemma_words_skip(s: Seq<char>, c: char)
    ensures words(s.skip(lead_n(s, c)), c) == words(s, c), 0 <= lead_n(s, c) <= s.len(), lead_n(s, c) < s.len() ==> s[lead_n(s, c)] != c, forall|e: Seq<char>| e.len() == 0 ==> #[trigger] words(e, c) == Seq::<Seq<char>>::empty()
{
    reveal_with_fuel(words, 2);
    assert forall|e: Seq<char>| e.len() == 0 implies #[trigger] words(e, c) == Seq::<Seq<char>>::empty() by { lemma_run_c(e, is_c(c)); }
    let t = s.skip(lead_n(s, c));
    lemma_run_c(s, is_c(c));
    reveal_with_fuel(run_c, 2);
    lemma_run_c(t, is_c(c));
    if t.len() > 0 { assert(t[0] == s[lead_n(s, c)]); }
    assert(lead_n(t, c) == 0);
    assert(t.skip(0) =~= t);
}

impl<'a> Attrlist<'a> {
    spec fn l(&self) -> Seq<ElementAttribute<'a>> { self.attributes@ }
    spec fn anc(&self) -> Option<Seq<char>> { match self.anchor { Some(a) => Some(a.t()), None => None } }
    spec fn ok(&self) -> bool { forall|i: int| 0 <= i < self.l().len() ==> (#[trigger] self.l()[i]).ok() }
    /// The ID: from an anchor, else from the first position's shorthand, else from `id=`.
    spec fn idv(&self) -> Option<Seq<char>> {
        if self.anc() is Some { self.anc() } else {
            let s = match nth(self.l(), 1) { Some(a) => a.idv(), None => None };
            if s is Some { s } else { match named(self.l(), "id"@) { Some(a) => Some(a.vl()), None => None } }
        }
    }
    spec fn rolv(&self) -> Seq<Seq<char>> {
        cat(match nth(self.l(), 1) { Some(a) => marked(a.its(), '.'), None => Seq::empty() },
            match named(self.l(), "role"@) { Some(a) => words(a.vl(), ' '), None => Seq::empty() })
    }
    spec fn optv(&self) -> Seq<Seq<char>> {
        cat(cat(match nth(self.l(), 1) { Some(a) => marked(a.its(), '%'), None => Seq::empty() },
            match named(self.l(), "opts"@) { Some(a) => words(a.vl(), ','), None => Seq::empty() }),
            match named(self.l(), "options"@) { Some(a) => words(a.vl(), ','), None => Seq::empty() })
    }
    spec fn sty(&self) -> Option<Seq<char>> { match nth(self.l(), 1) { Some(a) => a.sty(), None => None } }
}
impl VpAsDeref for Option<CowStr<'_>> { spec fn ad(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s.t()), None => None } } #[verifier::external_body] fn vp_as_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
/// `Vec::contains`
trait VpHas { spec fn hs(&self) -> Seq<Seq<char>>; fn vp_has(&self, x: &&str) -> (r: bool) ensures r == self.hs().contains((**x)@); }
impl VpHas for Vec<&str> { spec fn hs(&self) -> Seq<Seq<char>> { txts(self@) } #[verifier::external_body] fn vp_has(&self, x: &&str) -> (r: bool) { unimplemented!() } }
/// Attributes that are found are in the list.
proof fn lemma_in<'a>(l: Seq<ElementAttribute<'a>>, p: spec_fn(ElementAttribute<'a>) -> bool)
    ensures
        first_of(l, p) is Some ==> l.contains(first_of(l, p)->0),
        forall|i: int| 0 <= i < l.filter(p).len() ==> l.contains(#[trigger] l.filter(p)[i]),
    decreases l.len()
{
    reveal(Seq::filter);
    if l.len() > 0 {
        if p(l[0]) { assert(l.contains(l[0])); } else {
            lemma_in(l.skip(1), p);
            if first_of(l.skip(1), p) is Some { let x = first_of(l.skip(1), p)->0; let i = choose|i: int| 0 <= i < l.skip(1).len() && l.skip(1)[i] == x; assert(l[i + 1] == x); }
        }
        lemma_in(l.drop_last(), p);
        let f = l.drop_last().filter(p);
        assert forall|i: int| 0 <= i < l.filter(p).len() implies l.contains(#[trigger] l.filter(p)[i]) by {
            if i < f.len() { let x = f[i]; let j = choose|j: int| 0 <= j < l.drop_last().len() && l.drop_last()[j] == x; assert(l[j] == x); } else { assert(l[l.len() - 1] == l.last()); }
        }
    }
}

/// One word, and the rest.
proof fn lemma_word(s: Seq<char>, c: char)
    requires s.len() > 0, s[0] != c
    ensures ({
        let n = upto(s, c);
        &&& 0 < n <= s.len() && s.take(n).len() > 0
        &&& words(s, c) == seq![s.take(n)] + words(s.skip(n), c)
        &&& words(s.skip(n).skip(lead_n(s.skip(n), c)), c) == words(s.skip(n), c)
        &&& ({ let t = s.skip(n); 0 <= lead_n(t, c) <= t.len() && (lead_n(t, c) < t.len() ==> t[lead_n(t, c)] != c) })
        &&& forall|e: Seq<char>| e.len() == 0 ==> #[trigger] words(e, c) == Seq::<Seq<char>>::empty()
        &&& forall|v: Seq<Seq<char>>| cat(#[trigger] v.push(s.take(n)), words(s.skip(n), c)) == cat(v, words(s, c))
    })
{
    reveal_with_fuel(words, 2); reveal_with_fuel(run_c, 2);
    let n = upto(s, c);
    lemma_run_c(s, not_c(c)); lemma_run_c(s, is_c(c));
    assert(s.skip(0) =~= s);
    lemma_words_skip(s.skip(n), c);
    reveal(cat);
    assert forall|v: Seq<Seq<char>>| cat(#[trigger] v.push(s.take(n)), words(s.skip(n), c)) == cat(v, words(s, c)) by { assert(v.push(s.take(n)) + words(s.skip(n), c) =~= v + words(s, c)); }
}
proof fn lemma_txts()
    ensures
        forall|v: Seq<&str>, p: &str| txts(#[trigger] v.push(p)) == txts(v).push(p@),
        forall|v: Seq<&str>, w: Seq<&str>| txts(#[trigger] v.add(w)) == cat(txts(v), txts(w)),
        txts(Seq::empty()) == Seq::<Seq<char>>::empty(),
        forall|v: Seq<Seq<char>>| #[trigger] cat(v, Seq::<Seq<char>>::empty()) == v,
        forall|v: Seq<Seq<char>>| #[trigger] cat(Seq::<Seq<char>>::empty(), v) == v,
{
    reveal(cat);
    assert forall|v: Seq<&str>, p: &str| txts(#[trigger] v.push(p)) == txts(v).push(p@) by { assert(txts(v.push(p)) =~= txts(v).push(p@)); }
    assert forall|v: Seq<&str>, w: Seq<&str>| txts(#[trigger] v.add(w)) == cat(txts(v), txts(w)) by { assert(txts(v.add(w)) =~= txts(v) + txts(w)); }
    assert(txts(Seq::empty()) =~= Seq::empty());
    assert forall|v: Seq<Seq<char>>| #[trigger] cat(v, Seq::<Seq<char>>::empty()) == v by { assert(v + Seq::<Seq<char>>::empty() =~= v); }
    assert forall|v: Seq<Seq<char>>| #[trigger] cat(Seq::<Seq<char>>::empty(), v) == v by { assert(Seq::<Seq<char>>::empty() + v =~= v); }
}
//@fn attributes/attrlist.rs | Attrlist::anchor
//@ spec:
    ensures tx(r) == self.anc()
//@end
//@fn attributes/attrlist.rs | Attrlist::named_attribute
//@ eqs:
//@ spec:
    ensures at(r) == named(self.l(), name@), self.ok() && r is Some ==> (r->0).ok()
//@ start:
    proof { assert(mark(named_p(name@))); lemma_in(self.l(), named_p(name@)); }
//@ closure 0 params: attr: &&'src ElementAttribute<'src>
//@ closure 0:
    -> (o: bool) ensures o == ((**attr).nm() == Some(name@))
//@end
//@fn attributes/attrlist.rs | Attrlist::nth_attribute
//@ spec:
    ensures at(r) == nth(self.l(), n as int), self.ok() && r is Some ==> (r->0).ok()
//@ start:
    proof { assert(mark(unnamed_p())); lemma_in(self.l(), unnamed_p()); }
//@ closure 0 params: attr: &&'src ElementAttribute<'src>
//@ closure 0:
    -> (o: bool) ensures o == ((**attr).nm() is None)
//@end
//@fn attributes/attrlist.rs | Attrlist::named_or_positional_attribute
//@ spec:
    ensures at(r) == (if named(self.l(), name@) is Some { named(self.l(), name@) } else { nth(self.l(), index as int) }), self.ok() && r is Some ==> (r->0).ok()
//@ closure 0:
    -> (o: Option<&'src ElementAttribute<'src>>) ensures at(o) == nth(self.l(), index as int), self.ok() && o is Some ==> (o->0).ok()
//@end
//@fn attributes/attrlist.rs | Attrlist::id
//@ nolits:
//@ spec:
    requires self.ok()
    ensures tx(r) == self.idv()
//@ closure 0:
    -> (o: Option<&'src str>) requires self.anc() is None, self.ok() ensures tx(o) == self.idv()
//@ closure 1 params: attr1: &'src ElementAttribute<'src>
//@ closure 1:
    -> (o: Option<&'src str>) requires attr1.ok() ensures tx(o) == attr1.idv()
//@ closure 2:
    -> (o: Option<&'src str>) ensures tx(o) == (match named(self.l(), "id"@) { Some(a) => Some(a.vl()), None => None })
//@ closure 3 params: attr: &'src ElementAttribute<'src>
//@ closure 3:
    -> (o: &'src str) ensures o@ == attr.vl()
//@end
//@fn attributes/attrlist.rs | Attrlist::block_style
//@ spec:
    requires self.ok()
    ensures tx(r) == self.sty()
//@ closure 0 params: a: &'src ElementAttribute<'src>
//@ closure 0:
    -> (o: Option<&'src str>) requires a.ok() ensures tx(o) == a.sty()
//@end
//@fn attributes/attrlist.rs | Attrlist::roles
//@ nolits:
//@ rename unwrap_or_default: vp_or_empty
//@ spec:
    requires self.ok()
    ensures txts(r@) == self.rolv()
//@ start:
    hide(splits);
    proof { assert(mark_c(is_c(' ')) && mark_c(not_c(' '))); lemma_txts(); match named(self.l(), "role"@) { Some(a) => { lemma_words_skip(a.vl(), ' '); } None => {} } }
//@ closure 0 params: attr1: &'src ElementAttribute<'src>
//@ closure 0:
    -> (o: Vec<&'src str>) requires attr1.ok() ensures txts(o@) == marked(attr1.its(), '.')
//@ closure 1:
    -> (o: bool) ensures o == (c == ' ')
//@ closure 2:
    -> (o: bool) ensures o == (c != ' ')
//@ closure 3:
    -> (o: bool) ensures o == (c == ' ')
//@ loop 0:
    invariant
        wf(role_span), cat(txts(formal_roles@), words(role_span.data@, ' ')) == words(role_attr.vl(), ' '), role_span.data@.len() > 0 ==> role_span.data@[0] != ' '
    decreases role_span.data@.len()
//@ loop 0 start:
    proof { assert(mark_c(is_c(' ')) && mark_c(not_c(' '))); lemma_txts(); lemma_word(role_span.data@, ' '); }
//@end
//@fn attributes/attrlist.rs | Attrlist::options
//@ nolits:
//@ attrs: #[verifier::spinoff_prover] #[verifier::rlimit(150)]
//@ rename unwrap_or_default: vp_or_empty
//@ spec:
    requires self.ok()
    ensures txts(r@) == self.optv()
//@ start:
    hide(splits);
    proof {
        assert(mark_c(is_c(',')) && mark_c(not_c(','))); lemma_txts();
        match named(self.l(), "opts"@) { Some(a) => { lemma_words_skip(a.vl(), ','); } None => {} }
        match named(self.l(), "options"@) { Some(a) => { lemma_words_skip(a.vl(), ','); } None => {} }
    }
//@ closure 0 params: attr1: &'src ElementAttribute<'src>
//@ closure 0:
    -> (o: Vec<&'src str>) requires attr1.ok() ensures txts(o@) == marked(attr1.its(), '%')
//@ closure 1:
    -> (o: bool) ensures o == (c == ',')
//@ closure 2:
    -> (o: bool) ensures o == (c != ',')
//@ closure 3:
    -> (o: bool) ensures o == (c == ',')
//@ closure 4:
    -> (o: bool) ensures o == (c == ',')
//@ closure 5:
    -> (o: bool) ensures o == (c != ',')
//@ closure 6:
    -> (o: bool) ensures o == (c == ',')
//@ loop 0:
    invariant
        wf(option_span), cat(txts(formal_options@), words(option_span.data@, ',')) == words(option_attr.vl(), ','), option_span.data@.len() > 0 ==> option_span.data@[0] != ','
    decreases option_span.data@.len()
//@ loop 0 start:
    proof { assert(mark_c(is_c(',')) && mark_c(not_c(','))); lemma_txts(); lemma_word(option_span.data@, ','); }
//@ loop 1:
    invariant
        wf(option_span), cat(txts(formal_options@), words(option_span.data@, ',')) == words(option_attr.vl(), ','), option_span.data@.len() > 0 ==> option_span.data@[0] != ','
    decreases option_span.data@.len()
//@ loop 1 start:
    proof { assert(mark_c(is_c(',')) && mark_c(not_c(','))); lemma_txts(); lemma_word(option_span.data@, ','); }
//@end
//@fn attributes/attrlist.rs | Attrlist::has_option
//@ rename contains: vp_has
//@ spec:
    requires self.ok()
    ensures r == self.optv().contains(name.rf())
//@end
