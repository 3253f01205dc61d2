// --- C09, C17: the values of attributes and who may change them -----------------------
/// A value.
enum Val { Text(Seq<char>), Set, Unset }
spec fn val(v: InterpretedValue) -> Val {
    match v { InterpretedValue::Value(s) => Val::Text(s@), InterpretedValue::Set => Val::Set, InterpretedValue::Unset => Val::Unset }
}
impl VpClone for InterpretedValue {
    spec fn same(&self, r: Self) -> bool { val(*self) == val(r) }
    fn vp_clone(&self) -> (r: Self) {
        match self { InterpretedValue::Value(s) => InterpretedValue::Value(s.vp_clone()), InterpretedValue::Set => InterpretedValue::Set, InterpretedValue::Unset => InterpretedValue::Unset }
    }
}
impl VpClone for ModificationContext { spec fn same(&self, r: Self) -> bool { *self == r } fn vp_clone(&self) -> (r: Self) { *self } }

impl vstd::std_specs::cmp::PartialEqSpecImpl for InterpretedValue {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &Self) -> bool { val(*self) == val(*o) }
}
impl PartialEq for InterpretedValue {
    #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() }
}

/// What is known of one attribute: its value, and who may change it.
struct Av { ghost c: ModificationContext, ghost v: Val }
type Env = Map<Seq<char>, (ModificationContext, Val)>;
spec fn env(p: Parser) -> Env { p.attribute_values.m().map_values(|a: AttributeValue| (a.modification_context, val(a.value))) }
/// Values that attributes have when set without one.
spec fn defaults(p: Parser) -> Map<Seq<char>, Seq<char>> { p.default_attribute_values.m().map_values(|s: String| s@) }

/// The documentation of `ModificationContext`: who may change a value.
spec fn header_may(c: ModificationContext) -> bool { c == ModificationContext::Anywhere || c == ModificationContext::ApiOrHeader }
spec fn body_may(c: ModificationContext) -> bool { c == ModificationContext::Anywhere || c == ModificationContext::ApiOrDocumentBody }
spec fn may(header: bool, c: ModificationContext) -> bool { if header { header_may(c) } else { body_may(c) } }

/// The name that an attribute is stored by.
spec fn primary(n: Seq<char>) -> Seq<char> { if lower(n) == "hardbreaks"@ { "hardbreaks-option"@ } else { lower(n) } }

/// `n` gets the value `v`, if that is permitted; whoever may change it stays the same.
spec fn permitted(e: Env, header: bool, n: Seq<char>) -> bool { e.dom().contains(n) ==> may(header, e[n].0) }
spec fn context(e: Env, n: Seq<char>) -> ModificationContext { if e.dom().contains(n) { e[n].0 } else { ModificationContext::Anywhere } }
spec fn step(e: Env, header: bool, n: Seq<char>, v: Val) -> Env { if permitted(e, header, n) { e.insert(n, (context(e, n), v)) } else { e } }

/// A value given without text is the default of that name, if there is one.
spec fn effective(d: Map<Seq<char>, Seq<char>>, n: Seq<char>, v: Val) -> Val { if v is Set && d.dom().contains(n) { Val::Text(d[n]) } else { v } }

/// A refused change is reported, at the entry and with the name.
spec fn refused(a: Seq<Warning>, z: Seq<Warning>, s: Span, n: Seq<char>) -> bool {
    z.len() == a.len() + 1 && z.drop_last() =~= a && z.last().source == s && (z.last().warning matches WarningType::AttributeValueIsLocked(x) && x@ == n)
}

/// The entries of a document, in order: (in the header?, name, value).
spec fn run_steps(e: Env, h: Seq<(bool, Seq<char>, Val)>) -> Env decreases h.len() {
    if h.len() == 0 { e } else { let l = h.last(); step(run_steps(e, h.drop_last()), l.0, l.1, l.2) }
}
/// Whatever the entries: no attribute vanishes, none changes who may change it, and one that nobody
/// in the document may change (or only a part that has no entry for it) keeps its value.
proof fn lemma_locks(e: Env, h: Seq<(bool, Seq<char>, Val)>, n: Seq<char>)
    requires e.dom().contains(n)
    ensures
        run_steps(e, h).dom().contains(n),
        run_steps(e, h)[n].0 == e[n].0,
        (forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).1 == n ==> !may(h[i].0, e[n].0)) ==> run_steps(e, h)[n] == e[n],
        e[n].0 == ModificationContext::ApiOnly ==> run_steps(e, h)[n] == e[n],
    decreases h.len()
{
    if h.len() > 0 {
        let d = h.drop_last();
        lemma_locks(e, d, n);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == h[i] by {}
        if forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).1 == n ==> !may(h[i].0, e[n].0) {
            assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]).1 == n implies !may(d[i].0, e[n].0) by { assert(d[i] == h[i]); }
            assert(h[h.len() - 1] == h.last());
        }
    }
}
/// A permitted entry takes effect for what follows: the last permitted one counts.
proof fn lemma_last_counts(e: Env, h: Seq<(bool, Seq<char>, Val)>, k: int)
    requires 0 <= k < h.len(), e.dom().contains(h[k].1) ==> may(h[k].0, e[h[k].1].0), forall|i: int| k < i < h.len() ==> (#[trigger] h[i]).1 != h[k].1 || (e.dom().contains(h[k].1) && !may(h[i].0, e[h[k].1].0))
    ensures run_steps(e, h).dom().contains(h[k].1), run_steps(e, h)[h[k].1].1 == h[k].2
    decreases h.len()
{
    let n = h[k].1;
    let d = h.drop_last();
    let f = run_steps(e, d);
    if e.dom().contains(n) { lemma_locks(e, d, n); } else { lemma_new(e, d, n); }
    if k < h.len() - 1 {
        assert(d[k] == h[k]);
        assert forall|i: int| k < i < d.len() implies (#[trigger] d[i]).1 != d[k].1 || (e.dom().contains(d[k].1) && !may(d[i].0, e[d[k].1].0)) by { assert(d[i] == h[i]); }
        lemma_last_counts(e, d, k);
        assert(h[h.len() - 1].1 != n || (e.dom().contains(n) && !may(h[h.len() - 1].0, e[n].0)));
    }
}
/// One that the document brings in may be changed anywhere.
proof fn lemma_new(e: Env, h: Seq<(bool, Seq<char>, Val)>, n: Seq<char>)
    requires !e.dom().contains(n)
    ensures run_steps(e, h).dom().contains(n) ==> run_steps(e, h)[n].0 == ModificationContext::Anywhere
    decreases h.len()
{ if h.len() > 0 { lemma_new(e, h.drop_last(), n); } }

//@fn document/attribute.rs | Attribute::name
//@ spec:
    ensures *r == self.name
//@end
//@fn document/attribute.rs | Attribute::value
//@ spec:
    ensures *r == self.value
//@end
//@fn document/attribute.rs | HasSpan for Attribute::span
//@ spec:
    ensures r == self.source
//@ impl: impl<'src> Attribute<'src>
//@end
//@fn span/mod.rs | Span::data
//@ spec:
    ensures r == self.data
//@end

//@fn parser/parser.rs | remap_attr_name
//@ spec:
    ensures r@ == primary(raw_attr_name.rf())
//@end

//@fn parser/parser.rs | Parser::set_attribute_from_header
//@ spec:
    ensures
        final(self).default_attribute_values == old(self).default_attribute_values,
        env(*final(self)) =~= step(env(*old(self)), true, primary(attr.name.data@), effective(defaults(*old(self)), primary(attr.name.data@), val(attr.value))),
        permitted(env(*old(self)), true, primary(attr.name.data@)) ==> final(warnings)@ == old(warnings)@,
        !permitted(env(*old(self)), true, primary(attr.name.data@)) ==> refused(old(warnings)@, final(warnings)@, attr.source, primary(attr.name.data@)),
//@ closure 0 params: attr: &AttributeValue
//@ closure 0:
    -> (o: ModificationContext) ensures o == attr.modification_context
//@end

//@fn parser/parser.rs | Parser::set_attribute_by_value_from_header
//@ spec:
    ensures
        final(self).default_attribute_values == old(self).default_attribute_values,
        env(*final(self)) =~= step(env(*old(self)), true, primary(name.rf()), Val::Text(value.rf())),
//@ closure 0 params: attr: &AttributeValue
//@ closure 0:
    -> (o: ModificationContext) ensures o == attr.modification_context
//@end

//@fn parser/parser.rs | Parser::set_attribute_from_body
//@ spec:
    ensures
        final(self).default_attribute_values == old(self).default_attribute_values,
        env(*final(self)) =~= step(env(*old(self)), false, primary(attr.name.data@), val(attr.value)),
        permitted(env(*old(self)), false, primary(attr.name.data@)) ==> final(warnings)@ == old(warnings)@,
        !permitted(env(*old(self)), false, primary(attr.name.data@)) ==> refused(old(warnings)@, final(warnings)@, attr.source, primary(attr.name.data@)),
//@ closure 0 params: attr: &AttributeValue
//@ closure 0:
    -> (o: ModificationContext) ensures o == attr.modification_context
//@end

/// What `attribute_value` reports.
//@fn parser/parser.rs | Parser::attribute_value
//@ spec:
    ensures val(r) == (if env(*self).dom().contains(name.rf()) { effective(defaults(*self), name.rf(), env(*self)[name.rf()].1) } else { Val::Unset })
//@ closure 0 params: av: &AttributeValue
//@ closure 0:
    -> (o: InterpretedValue) ensures val(o) == val(av.value)
//@ closure 1 params: av: InterpretedValue
//@ closure 1:
    -> (o: InterpretedValue) ensures val(o) == effective(defaults(*self), name.rf(), val(av))
//@end

//@fn parser/parser.rs | Parser::has_attribute
//@ spec:
    ensures r == env(*self).dom().contains(name.rf())
//@end

//@fn parser/parser.rs | Parser::is_attribute_set
//@ spec:
    ensures r == (env(*self).dom().contains(name.rf()) && !(env(*self)[name.rf()].1 is Unset))
//@ closure 0 params: a: &AttributeValue
//@ closure 0:
    -> (o: bool) ensures o == !(val(a.value) is Unset)
//@end

//@fn parser/parser.rs | Parser::with_intrinsic_attribute
//@ spec:
    ensures r.default_attribute_values == self.default_attribute_values, env(r) =~= env(self).insert(lower(name.rf()), (modification_context, Val::Text(value.rf())))
//@end

//@fn parser/parser.rs | Parser::with_intrinsic_attribute_bool
//@ spec:
    ensures r.default_attribute_values == self.default_attribute_values, env(r) =~= env(self).insert(lower(name.rf()), (modification_context, if value { Val::Set } else { Val::Unset }))
//@end
