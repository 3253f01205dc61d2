/// Verbatim text has its special characters escaped, once each, and nothing else done to it; text without substitutions stays as it is.
proof fn lemma_verbatim(t: Seq<char>, p: Parser, a: Option<Attrlist>)
    ensures
        outcome(SubstitutionGroup::Verbatim, t, p, a) == escaped_by(&*p.renderer, t, 0, Seq::empty()),
        outcome(SubstitutionGroup::None, t, p, a) == t,
        outcome(SubstitutionGroup::Pass, t, p, a) == t,
        (forall|k: SpecialCharacter, d: Seq<char>| #[trigger] p.renderer.special_out(k, d) == html_out(k, d)) ==> outcome(SubstitutionGroup::Verbatim, t, p, a) == esc(t),
{
    let s = seq![Step::SpecialCharacters];
    assert(s.drop_last() =~= Seq::empty());
    assert(effects(s.drop_last(), t, p, a) == t);
    assert(effects(s, t, p, a) == effect(Step::SpecialCharacters, t, p, a));
    assert(!s.contains(Step::Macros));
    assert(!Seq::<Step>::empty().contains(Step::Macros));
    if forall|k: SpecialCharacter, d: Seq<char>| #[trigger] p.renderer.special_out(k, d) == html_out(k, d) {
        lemma_html(&*p.renderer, t, 0, Seq::empty());
        assert(t.skip(0) =~= t);
        assert(escaped_by(&*p.renderer, t, 0, Seq::empty()) =~= esc(t));
    }
}
