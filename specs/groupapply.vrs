// --- C11: what a group of substitutions does --------------------------------------------
spec fn guarded(g: SubstitutionGroup) -> bool { steps_of(g).contains(Step::Macros) || g is Header }
spec fn effects(l: Seq<Step>, c: Seq<char>, p: Parser, a: Option<Attrlist>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { c } else { effect(l.last(), effects(l.drop_last(), c, p, a), p, a) }
}
spec fn al<'a>(a: Option<&Attrlist<'a>>) -> Option<Attrlist<'a>> { match a { Some(a) => Some(*a), None => None } }
/// What a group does to a text.
spec fn outcome(g: SubstitutionGroup, t: Seq<char>, p: Parser, a: Option<Attrlist>) -> Seq<char> {
    if guarded(g) {
        let (c, q) = taken_out(t);
        put_back(q, effects(steps_of(g), c, p, a), p)
    } else { effects(steps_of(g), t, p, a) }
}
/// The steps run in order, once each; passthroughs are taken out before them and put back after them.
//@fn content/substitution_group.rs | SubstitutionGroup::apply
//@ spec:
    requires !steps_of(*self).contains(Step::Callouts)
    ensures
        final(content).original == old(content).original,
        text(*final(content)) == outcome(*self, text(*old(content)), *parser, al(attrlist))
//@ loop 0 iter: vp_slice_iter($e)
//@ loop 0 pre:
    let ghost c0 = text(*content);
    let ghost l = steps_of(*self);
    proof { assert(l.take(0) =~= Seq::empty()); }
//@ loop 0:
    invariant content.original == old(content).original, __it0.s() == l, 0 <= __it0.k() <= l.len(), text(*content) == effects(l.take(__it0.k()), c0, *parser, al(attrlist))
    decreases l.len() - __it0.k()
//@ loop 0 before:
    let ghost k = __it0.k();
    proof { if k < l.len() { assert(l.take(k + 1).drop_last() =~= l.take(k)); assert(l.contains(l[k])); } else { assert(l.take(k) =~= l); } }
//@end

