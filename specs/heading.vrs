//@include titleline.vrs
// --- what surrounds a heading --------------------------------------------------
//@type warnings.rs | MatchAndWarnings
//@type blocks/section.rs | SectionType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/section.rs | SectionNumber
//@type attributes/attrlist.rs | Attrlist opaque keep=source
//@type blocks/metadata.rs | BlockMetadata keep=source,block_start,attrlist
//@type parser/parser.rs | Parser keep=last_section_number,last_appendix_section_number,topmost_section_type,sectnumlevels,catalog

impl SectionNumber {
    /// The derived `Clone` gives an equal value.
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    /// The derived `Default`.
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.section_type == SectionType::Normal, r.components@.len() == 0 { unimplemented!() }
}

uninterp spec fn default_parser() -> Parser;
uninterp spec fn meta_of<'src>(s: Span<'src>, p: Parser) -> BlockMetadata<'src>;
uninterp spec fn discrete(m: BlockMetadata) -> bool;
uninterp spec fn attr_set(p: Parser, name: Seq<char>) -> bool;
uninterp spec fn style_of(a: Attrlist) -> Option<Seq<char>>;

//@assume parser/parser.rs | Default for Parser::default
//@ impl: impl Parser
//@ spec:
    ensures r == default_parser()
//@end
//@assume blocks/metadata.rs | BlockMetadata::parse
//@ spec:
    requires wf(source)
    ensures r.item == meta_of(source, *old(parser)), wf(r.item.block_start), within(source, r.item.block_start)
//@end
//@assume blocks/metadata.rs | BlockMetadata::is_discrete
//@ spec:
    ensures r == discrete(*self)
//@end
//@assume attributes/attrlist.rs | Attrlist::block_style
//@ spec:
    ensures (r is Some) == (style_of(*self) is Some), r is Some ==> (r->0)@ == style_of(*self)->0
//@end
impl Parser {
    /// (Under contract in the unit `attrs`.)
    #[verifier::external_body]
    fn is_attribute_set(&self, name: &str) -> (r: bool) ensures r == attr_set(*self, name@) { unimplemented!() }
}

//@fn blocks/section.rs | peer_or_ancestor_section
//@ spec:
    requires wf(source), *old(most_recent_level) < usize::MAX
    ensures ({
        let m = meta_of(source, default_parser());
        let h = sb(m.block_start);
        let l = marks(line_of(h)) - 1;
        if discrete(m) { !r && *final(most_recent_level) == *old(most_recent_level) && final(warnings)@ == old(warnings)@ }
        else if !is_heading(h) { !r && *final(most_recent_level) == *old(most_recent_level) }
        else {
            &&& r == (l <= level)
            &&& *final(most_recent_level) == l
            &&& if l > *old(most_recent_level) + 1 { reported(old(warnings)@, final(warnings)@, source, WarningType::SectionHeadingLevelSkipped(*old(most_recent_level), l as usize)) }
                else { final(warnings)@ == old(warnings)@ }
        }
    })
//@end

// --- C05: section numbers --------------------------------------------------------

/// The number that follows `c` at level `l`.
spec fn step(c: Seq<usize>, l: int) -> Seq<usize> {
    if c.len() < l { c + Seq::new((l - c.len()) as nat, |i: int| 1usize) }
    else if l > 0 { c.take(l).update(l - 1, (c[l - 1] + 1) as usize) }
    else { c.take(0) }
}
spec fn counts(c: Seq<usize>) -> bool { forall|i: int| 0 <= i < c.len() ==> c[i] < usize::MAX }

//@fn blocks/section.rs | SectionNumber::assign_next_number
//@ spec:
    requires counts(old(self).components@)
    ensures final(self).components@ =~= step(old(self).components@, level as int), final(self).section_type == old(self).section_type
//@end

//@fn parser/parser.rs | Parser::assign_section_number
//@ spec:
    requires counts(old(self).last_section_number.components@), counts(old(self).last_appendix_section_number.components@)
    ensures
        final(self).topmost_section_type == old(self).topmost_section_type, final(self).sectnumlevels == old(self).sectnumlevels, final(self).catalog == old(self).catalog,
        old(self).topmost_section_type == SectionType::Normal ==> final(self).last_appendix_section_number == old(self).last_appendix_section_number
            && r == final(self).last_section_number && r.section_type == old(self).last_section_number.section_type
            && r.components@ == step(old(self).last_section_number.components@, level as int),
        old(self).topmost_section_type == SectionType::Appendix ==> final(self).last_section_number == old(self).last_section_number
            && r == final(self).last_appendix_section_number && r.section_type == old(self).last_appendix_section_number.section_type
            && r.components@ == step(old(self).last_appendix_section_number.components@, level as int),
        old(self).topmost_section_type == SectionType::Discrete ==> *final(self) == *old(self),
//@end

/// Which sections are numbered.
//@slice blocks/section.rs | SectionBlock::parse | let section_number
//@ sig: fn section_number_of(parser: &mut Parser, level: usize, discrete: bool) -> Option<SectionNumber> /*@free*/
//@ spec:
    requires counts(old(parser).last_section_number.components@), counts(old(parser).last_appendix_section_number.components@)
    ensures
        (r is Some) == (attr_set(*old(parser), "sectnums"@) && level <= old(parser).sectnumlevels && !discrete),
        r is None ==> *final(parser) == *old(parser),
        r is Some && old(parser).topmost_section_type == SectionType::Normal ==> (r->0).components@ == step(old(parser).last_section_number.components@, level as int)
            && final(parser).last_section_number == r->0 && final(parser).last_appendix_section_number == old(parser).last_appendix_section_number,
        r is Some && old(parser).topmost_section_type == SectionType::Appendix ==> (r->0).components@ == step(old(parser).last_appendix_section_number.components@, level as int)
            && final(parser).last_appendix_section_number == r->0 && final(parser).last_section_number == old(parser).last_section_number,
//@end

/// The type of a section.
//@slice blocks/section.rs | SectionBlock::parse | let section_type
//@ sig: fn section_type_of<'src>(parser: &mut Parser, metadata: &BlockMetadata<'src>, level: usize, discrete: bool) -> SectionType /*@free*/
//@ spec:
    ensures
        final(parser).last_section_number == old(parser).last_section_number, final(parser).last_appendix_section_number == old(parser).last_appendix_section_number,
        discrete ==> r == SectionType::Discrete && *final(parser) == *old(parser),
        !discrete && level == 1 ==> r == (if metadata.attrlist is Some && style_of(metadata.attrlist->0) == Some("appendix"@) { SectionType::Appendix } else { SectionType::Normal })
            && final(parser).topmost_section_type == r,
        !discrete && level != 1 ==> r == old(parser).topmost_section_type && *final(parser) == *old(parser),
//@end

/// A number of level `l` has `l` components, and keeps its parent's.
proof fn lemma_step_parent(c: Seq<usize>, l: int)
    requires l >= 1
    ensures
        step(c, l).len() == l,
        c.len() >= l - 1 ==> step(c, l).take(l - 1) =~= c.take(l - 1),
        c.len() >= l ==> step(c, l)[l - 1] == (c[l - 1] + 1) as usize,
        c.len() < l ==> step(c, l)[l - 1] == 1
{}

spec fn steps(c: Seq<usize>, ls: Seq<int>) -> Seq<usize> decreases ls.len() { if ls.len() == 0 { c } else { step(steps(c, ls.drop_last()), ls.last()) } }

/// Numbering anything deeper leaves a number alone …
proof fn lemma_deeper(c: Seq<usize>, l: int, ls: Seq<int>)
    requires l >= 1, c.len() >= l, forall|i: int| 0 <= i < ls.len() ==> ls[i] > l
    ensures steps(c, ls).len() >= l, steps(c, ls).take(l) =~= c.take(l)
    decreases ls.len()
{
    if ls.len() > 0 {
        lemma_deeper(c, l, ls.drop_last());
        let d = steps(c, ls.drop_last());
        lemma_step_parent(d, ls.last());
        assert(step(d, ls.last()).take(l) =~= d.take(l));
    }
}

/// … so the next section of a level, after any number of deeper ones, has the same parent's number and the next count.
proof fn lemma_next_sibling(c: Seq<usize>, l: int, ls: Seq<int>)
    requires l >= 1, c.len() == l, counts(c), forall|i: int| 0 <= i < ls.len() ==> ls[i] > l
    ensures step(steps(c, ls), l) =~= c.update(l - 1, (c[l - 1] + 1) as usize)
{
    lemma_deeper(c, l, ls);
    let d = steps(c, ls);
    assert(d[l - 1] == d.take(l)[l - 1]);
}

/// Numbers never repeat: each is greater than the one before it, in dictionary order.
spec fn lex_lt(a: Seq<usize>, b: Seq<usize>) -> bool { exists|k: int| #[trigger] lex_at(a, b, k) }
spec fn lex_at(a: Seq<usize>, b: Seq<usize>, k: int) -> bool {
    0 <= k < b.len() && k <= a.len() && (forall|i: int| 0 <= i < k ==> a[i] == b[i]) && (k < a.len() ==> a[k] < b[k])
}
proof fn lemma_increasing(c: Seq<usize>, l: int)
    requires l >= 1, counts(c)
    ensures lex_lt(c, step(c, l))
{
    if c.len() >= l { assert(lex_at(c, step(c, l), l - 1)); } else { assert(lex_at(c, step(c, l), c.len() as int)); }
}
proof fn lemma_lex_trans(a: Seq<usize>, b: Seq<usize>, c: Seq<usize>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c), a != c
{
    let k = choose|k: int| lex_at(a, b, k);
    let m = choose|m: int| lex_at(b, c, m);
    if k < m { assert(b[k] == c[k]); assert(lex_at(a, c, k)); }
    else if k == m { assert(lex_at(a, c, k)); }
    else { assert(a[m] == b[m]); assert(lex_at(a, c, m)); }
    let n = choose|n: int| lex_at(a, c, n);
    assert(lex_at(a, c, n));
    if a == c { assert(n < a.len()); }
}
