// --- C11: substitution steps ------------------------------------------------------------
//@type content/substitution_step.rs | SubstitutionStep derive=Clone,Copy,PartialEq,Eq,Structural
//@type content/substitution_group.rs | SubstitutionGroup
type Step = SubstitutionStep;

impl VpClone for SubstitutionGroup {
    spec fn same(&self, r: Self) -> bool { r == *self }
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() }
}
/// `[T]::to_owned`
trait VpOwnedSl<T> { spec fn sl(&self) -> Seq<T>; fn vp_to_owned(&self) -> (r: Vec<T>) ensures r@ == self.sl(); }
impl VpOwnedSl<Step> for [Step] { spec fn sl(&self) -> Seq<Step> { self@ } #[verifier::external_body] fn vp_to_owned(&self) -> (r: Vec<Step>) { unimplemented!() } }
/// `Vec::retain`
trait VpRetain<T> { spec fn rs(&self) -> Seq<T>; fn vp_retain<F: Fn(&T) -> bool>(&mut self, f: F)
    requires forall|x: &T| f.requires((x,))
    ensures final(self).rs().len() <= old(self).rs().len(), forall|p: spec_fn(T) -> bool| (forall|x: &T, o: bool| #[trigger] f.ensures((x,), o) ==> o == p(*x)) ==> final(self).rs() == #[trigger] old(self).rs().filter(p); }
impl<T> VpRetain<T> for Vec<T> { spec fn rs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() } }

spec fn normal() -> Seq<Step> { seq![Step::SpecialCharacters, Step::Quotes, Step::AttributeReferences, Step::CharacterReplacements, Step::Macros, Step::PostReplacement] }
/// The steps of a group.
spec fn steps_of(g: SubstitutionGroup) -> Seq<Step> {
    match g {
        SubstitutionGroup::Normal | SubstitutionGroup::Title => normal(),
        SubstitutionGroup::Header | SubstitutionGroup::AttributeEntryValue => seq![Step::SpecialCharacters, Step::AttributeReferences],
        SubstitutionGroup::Verbatim => seq![Step::SpecialCharacters],
        SubstitutionGroup::Pass | SubstitutionGroup::None => Seq::empty(),
        SubstitutionGroup::Custom(v) => v@,
    }
}
spec fn step_named(s: Seq<char>) -> Option<Step> {
    if s == "c"@ || s == "specialcharacters"@ || s == "specialchars"@ { Some(Step::SpecialCharacters) }
    else if s == "q"@ || s == "quotes"@ { Some(Step::Quotes) }
    else if s == "a"@ || s == "attributes"@ { Some(Step::AttributeReferences) }
    else if s == "r"@ || s == "replacements"@ { Some(Step::CharacterReplacements) }
    else if s == "m"@ || s == "macros"@ { Some(Step::Macros) }
    else if s == "p"@ || s == "post_replacements"@ { Some(Step::PostReplacement) }
    else { None }
}
spec fn is_normal(s: Seq<char>) -> bool { s == "n"@ || s == "normal"@ }
spec fn is_verbatim(s: Seq<char>) -> bool { s == "v"@ || s == "verbatim"@ }
spec fn other_than(x: Step) -> spec_fn(Step) -> bool { |y: Step| y != x }
/// How an item of the list changes the steps.
enum Mode { After, Before, Without, Plain }
spec fn mode(s: Seq<char>) -> Mode { if starts(s, seq!['+']) { Mode::After } else if ends(s, seq!['+']) { Mode::Before } else if starts(s, seq!['-']) { Mode::Without } else { Mode::Plain } }
spec fn bare(s: Seq<char>) -> Seq<char> { match mode(s) { Mode::After | Mode::Without => s.skip(1), Mode::Before => s.drop_last(), Mode::Plain => s } }
/// One item, after `cur`; `first`: it is the list's first.
spec fn item(first: bool, start: Option<Seq<Step>>, cur: Seq<Step>, t: Seq<char>) -> Option<Seq<Step>> {
    let s = trim(t);
    if is_normal(s) { Some(normal()) } else if is_verbatim(s) { Some(seq![Step::SpecialCharacters]) } else {
        let base = if first && start is Some && !(mode(s) is Plain) { start->0 } else { cur };
        match step_named(bare(s)) {
            None => None,
            Some(x) => Some(match mode(s) { Mode::Before => seq![x] + base, Mode::Without => base.filter(other_than(x)), _ => base.push(x) }),
        }
    }
}
spec fn items(start: Option<Seq<Step>>, l: Seq<Seq<char>>) -> Option<Seq<Step>> decreases l.len() {
    if l.len() == 0 { Some(Seq::empty()) } else { match items(start, l.drop_last()) { None => None, Some(c) => item(l.len() == 1, start, c, l.last()) } }
}
/// What a list stands for.
spec fn meaning(start: Option<Seq<Step>>, custom: Seq<char>) -> Option<Seq<Step>> {
    let c = trim(custom);
    if c == "none"@ { Some(Seq::empty()) } else { items(start, split(c, ',')) }
}

//@fn content/substitution_group.rs | SubstitutionGroup::steps
//@ spec:
    ensures r@ =~= steps_of(*self)
//@end

//@fn content/substitution_group.rs | SubstitutionGroup::from_custom_string
//@ spec:
    ensures (match r { Some(g) => Some(steps_of(g)), None => None }) == meaning(match start_from { Some(g) => Some(steps_of(*g)), None => None }, custom@)
//@ start:
    let ghost st: Option<Seq<Step>> = match start_from { Some(g) => Some(steps_of(*g)), None => None };
    let ghost cu = trim(custom@);
    proof {
        assert("n"@.len() == 1); 
        if is_normal(cu) || is_verbatim(cu) {
            lemma_split_one(cu, ',');
            lemma_trim_id(cu);
            axiom_ws_ascii(cu[0]); axiom_ws_ascii(cu.last());
            let l = split(cu, ',');
            assert(l.drop_last() =~= Seq::<Seq<char>>::empty());
            assert(items(st, l.drop_last()) == Some(Seq::<Step>::empty()));
            assert(items(st, l) == item(true, st, Seq::empty(), cu));
        }
    }
//@ loop 0 pre:
    let ghost l = split(cu, ',');
    proof { lemma_split(cu, ','); assert(l.take(0) =~= Seq::empty()); }
//@ loop 0:
    invariant
        __it0.parts() == l, 0 <= __it0.k() <= l.len(), l == split(cu, ','), l.len() > 0, cu == trim(custom@) || true,
        items(st, l.take(__it0.k())) is Some, items(st, l.take(__it0.k()))->0 =~= steps@,
    decreases l.len() - __it0.k()
//@ loop 0 before:
    let ghost k = __it0.k();
    let ghost was = steps@;
//@ loop 0 start:
    let ghost tok = step@;
    proof {
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        assert(l.take(k + 1).last() == tok);
        assert(items(st, l.take(k + 1)) == item(k == 0, st, was, tok));
        lemma_void(st, l, k + 1);
    }
//@ loop 0 exit:
    proof { assert(l.take(l.len() as int) =~= l); }
//@ after step = step.trim();:
    proof {
        lemma_cut_ends(step);
        let s0 = step@;
        if s0.len() > 0 { assert(s0.take(1)[0] == s0[0]); assert(s0.skip(s0.len() - 1)[0] == s0.last()); }
    }
//@ before steps.retain:
    proof { let f = steps@.filter(other_than(step)); }
//@ closure 0 params: s: &SubstitutionStep
//@ closure 0:
    -> (o: bool) ensures o == (*s != step)
//@end

/// A list always has an item.
proof fn lemma_split(s: Seq<char>, c: char)
    ensures split(s, c).len() > 0
    decreases s.len()
{ if s.len() > 0 { lemma_split(s.drop_last(), c); } }
/// An item that is void makes the list void.
proof fn lemma_void(st: Option<Seq<Step>>, l: Seq<Seq<char>>, k: int)
    requires 0 <= k <= l.len()
    ensures items(st, l.take(k)) is None ==> items(st, l) is None
    decreases l.len() - k
{
    if k < l.len() {
        assert(l.take(k + 1).drop_last() =~= l.take(k));
        lemma_void(st, l, k + 1);
    } else { assert(l.take(k) =~= l); }
}

// --- which group a block uses, and what it does -----------------------------------------
impl vstd::std_specs::cmp::PartialEqSpecImpl for SubstitutionGroup {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &Self) -> bool { match (*self, *o) { (SubstitutionGroup::Custom(a), SubstitutionGroup::Custom(b)) => a@ == b@, _ => *self == *o } }
}
/// The derived comparison.
impl PartialEq for SubstitutionGroup { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
trait VpHas<T> { spec fn hs(&self) -> Seq<T>; fn cp_contains(&self, x: &T) -> (r: bool) ensures r == self.hs().contains(*x); }
impl VpHas<Step> for [Step] { spec fn hs(&self) -> Seq<Step> { self@ } #[verifier::external_body] fn cp_contains(&self, x: &Step) -> (r: bool) { unimplemented!() } }
//@type attributes/attrlist.rs | Attrlist opaque keep=source
//@type attributes/element_attribute.rs | ElementAttribute
//@type span/mod.rs | Span derive=Clone,Copy
uninterp spec fn nth<'a>(a: Attrlist<'a>, n: int) -> Option<ElementAttribute<'a>>;
uninterp spec fn named<'a>(a: Attrlist<'a>, n: Seq<char>) -> Option<ElementAttribute<'a>>;
uninterp spec fn ea_value(a: ElementAttribute) -> Seq<char>;
uninterp spec fn ea_style(a: ElementAttribute) -> Option<Seq<char>>;
/// (These are under contract in the unit `list`.)
//@assume attributes/attrlist.rs | Attrlist::nth_attribute
//@ spec:
    ensures (r is Some) == (nth(*self, n as int) is Some), r is Some ==> *(r->0) == nth(*self, n as int)->0
//@end
//@assume attributes/attrlist.rs | Attrlist::named_attribute
//@ spec:
    ensures (r is Some) == (named(*self, name@) is Some), r is Some ==> *(r->0) == named(*self, name@)->0
//@end
//@assume attributes/element_attribute.rs | ElementAttribute::value
//@ spec:
    ensures r@ == ea_value(*self)
//@end
//@assume attributes/element_attribute.rs | ElementAttribute::block_style
//@ spec:
    ensures (r is Some) == (ea_style(*self) is Some), r is Some ==> (r->0)@ == ea_style(*self)->0
//@end

spec fn style1(a: Attrlist) -> Option<Seq<char>> { match nth(a, 1) { Some(e) => ea_style(e), None => None } }
/// The steps a block with default `g` uses: its `subs` attribute's, if that is valid; none with the style `pass`; else the default's.
spec fn chosen(g: Seq<Step>, a: Option<Attrlist>) -> Seq<Step> {
    match a {
        None => g,
        Some(a) => {
            let d = if style1(a) == Some("pass"@) { Seq::empty() } else { g };
            match named(a, "subs"@) { None => d, Some(e) => match meaning(Some(d), ea_value(e)) { Some(s) => s, None => d } }
        }
    }
}
//@fn content/substitution_group.rs | SubstitutionGroup::override_via_attrlist
//@ spec:
    ensures steps_of(r) == chosen(steps_of(*self), match attrlist { Some(a) => Some(*a), None => None })
//@ closure 0 params: a: &ElementAttribute
//@ closure 0:
    -> (o: Option<&str>) ensures (match o { Some(s) => Some(s@), None => None }) == ea_style(*a)
//@ closure 1 params: attr: &ElementAttribute
//@ closure 1:
    -> (o: &str) ensures o@ == ea_value(*attr)
//@ closure 2 params: s: &str
//@ closure 2:
    -> (o: Option<SubstitutionGroup>) ensures (match o { Some(g) => Some(steps_of(g)), None => None }) == meaning(Some(steps_of(result)), s@)
//@end

/// Nothing but the list's own items decides its meaning: a void item makes it void, and an item that names no group changes the steps as it says.
proof fn lemma_items(st: Option<Seq<Step>>, l: Seq<Seq<char>>, t: Seq<char>)
    requires items(st, l) is Some, l.len() > 0
    ensures ({
        let c = items(st, l)->0;
        let n = items(st, l.push(t));
        let s = trim(t);
        let x = step_named(bare(s));
        &&& is_normal(s) ==> n == Some(normal())
        &&& !is_normal(s) && !is_verbatim(s) && x is None ==> n is None
        &&& !is_normal(s) && !is_verbatim(s) && x is Some && (mode(s) is After || mode(s) is Plain) ==> n == Some(c.push(x->0))
        &&& !is_normal(s) && !is_verbatim(s) && x is Some && mode(s) is Before ==> n == Some(seq![x->0] + c)
    })
{ assert(l.push(t).drop_last() =~= l); }
/// No list stands for callouts (which no step implements).
proof fn lemma_no_callouts(st: Option<Seq<Step>>, l: Seq<Seq<char>>)
    requires st is Some ==> !st->0.contains(Step::Callouts)
    ensures items(st, l) is Some ==> !items(st, l)->0.contains(Step::Callouts)
    decreases l.len()
{
    if l.len() > 0 && items(st, l) is Some {
        lemma_no_callouts(st, l.drop_last());
        let cur = items(st, l.drop_last())->0;
        let s = trim(l.last());
        let base = if l.len() == 1 && st is Some && !(mode(s) is Plain) { st->0 } else { cur };
        let r = items(st, l)->0;
        if r.contains(Step::Callouts) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == Step::Callouts;
            if !is_normal(s) && !is_verbatim(s) {
                let x = step_named(bare(s))->0;
                match mode(s) {
                    Mode::Before => { assert(r =~= seq![x] + base); assert(i > 0); assert(base[i - 1] == r[i]); assert(base.contains(Step::Callouts)); }
                    Mode::Without => { base.lemma_filter_contains_rev(other_than(x), r[i]); }
                    _ => { assert(r =~= base.push(x)); assert(i < base.len()); assert(base[i] == r[i]); assert(base.contains(Step::Callouts)); }
                }
            }
        }
    }
}
