// --- the tree of blocks: C01, C03, C06, C07, C19, C21 ------------------------------------------
spec fn cat_of(p: Parser) -> Catalog { p.catalog->0 }
/// While a document is parsed, there is a catalog.
spec fn ready(p: Parser) -> bool { p.catalog is Some && cat_of(p).ok() }
uninterp spec fn rest_set(r: VpRest, name: Seq<char>) -> bool;
uninterp spec fn default_parser() -> Parser;
spec fn attr_set(p: Parser, name: Seq<char>) -> bool { rest_set(p.__rest, name) }

// --- which entries of the catalog come from which block
spec fn sect_reftext(s: SectionBlock) -> Seq<char> {
    match s.attrlist { Some(a) => match named(a, "reftext"@) { Some(e) => ea_value(e), None => text(s.section_title) }, None => text(s.section_title) }
}
/// What a block itself has filed in the catalog.
spec fn own_claim(b: Block, e: RefEntry) -> bool {
    match b {
        Block::Section(s) => s.v_id() == Some(e.id@) && e.ref_type == RefType::Section && ostr(e.reftext) == Some(sect_reftext(s)),
        Block::DocumentAttribute(_) => false,
        _ => b.v_id() == Some(e.id@) && e.ref_type == RefType::Anchor && ostr(e.reftext) == b.v_title(),
    }
}
/// What it or a block in it has.
spec fn claims<'a>(b: Block<'a>, e: RefEntry) -> bool decreases b {
    own_claim(b, e) || match b {
        Block::Section(s) => exists|i: int| 0 <= i < s.blocks.len() && claims(#[trigger] s.blocks[i], e),
        Block::CompoundDelimited(s) => exists|i: int| 0 <= i < s.blocks.len() && claims(#[trigger] s.blocks[i], e),
        _ => false,
    }
}
spec fn some_claims(bs: Seq<Block>, e: RefEntry) -> bool { exists|i: int| 0 <= i < bs.len() && claims(#[trigger] bs[i], e) }
/// The catalog `z` is `a` and what the blocks have filed, and nothing else; what was there stays as it was.
#[verifier::opaque]
spec fn grown(a: Catalog, z: Catalog, bs: Seq<Block>) -> bool {
    &&& forall|i: Seq<char>| #[trigger] a.ids().contains(i) ==> z.ids().contains(i) && z.refs.m()[i] == a.refs.m()[i]
    &&& forall|x: Seq<char>| #[trigger] a.texts().dom().contains(x) ==> z.texts().dom().contains(x) && z.texts()[x] == a.texts()[x]
    &&& forall|i: Seq<char>| #[trigger] z.ids().contains(i) && !a.ids().contains(i) ==> some_claims(bs, z.refs.m()[i])
    &&& forall|e: RefEntry| #[trigger] some_claims(bs, e) ==> z.ids().contains(e.id@)
}
proof fn lemma_grown_none(a: Catalog)
    ensures grown(a, a, Seq::empty())
{ reveal(grown); }
proof fn lemma_grown_push(a: Catalog, b: Catalog, c: Catalog, xs: Seq<Block>, y: Block)
    requires grown(a, b, xs), grown(b, c, seq![y])
    ensures grown(a, c, xs.push(y))
{
    reveal(grown);
    let zs = xs.push(y);
    assert forall|e: RefEntry| #[trigger] some_claims(zs, e) <==> some_claims(xs, e) || some_claims(seq![y], e) by {
        if some_claims(xs, e) { let i = choose|i: int| 0 <= i < xs.len() && claims(#[trigger] xs[i], e); assert(zs[i] == xs[i]); }
        if some_claims(seq![y], e) { let i = choose|i: int| 0 <= i < 1 && claims(#[trigger] seq![y][i], e); assert(zs[xs.len() as int] == seq![y][i]); }
        if some_claims(zs, e) { let i = choose|i: int| 0 <= i < zs.len() && claims(#[trigger] zs[i], e); if i < xs.len() { assert(xs[i] == zs[i]); } else { assert(seq![y][0] == zs[i]); } }
    }
    assert forall|i: Seq<char>| #[trigger] c.ids().contains(i) && !a.ids().contains(i) implies some_claims(zs, c.refs.m()[i]) by { if b.ids().contains(i) {} }
}
/// A block that is no section files its own ID after those of the blocks in it.
proof fn lemma_grown_own(a: Catalog, m: Catalog, z: Catalog, xs: Seq<Block>, y: Block)
    requires
        grown(a, m, xs),
        match y { Block::Section(s) => s.blocks@ == xs, Block::CompoundDelimited(s) => s.blocks@ == xs, _ => xs.len() == 0 },
        match y {
            Block::Section(s) => match s.v_id() { None => z == m, Some(i) => if m.ids().contains(i) { z == m } else { added(m, z, i, Some(sect_reftext(s)), RefType::Section) } },
            Block::DocumentAttribute(_) => z == m,
            _ => match y.v_id() { None => z == m, Some(i) => if m.ids().contains(i) { z == m } else { added(m, z, i, y.v_title(), RefType::Anchor) } },
        },
    ensures grown(a, z, seq![y])
{
    reveal(grown);
    let ys = seq![y];
    assert forall|e: RefEntry| #[trigger] some_claims(ys, e) <==> own_claim(y, e) || some_claims(xs, e) by {
        if some_claims(ys, e) {
            assert(claims(y, e));
            if !own_claim(y, e) {
                match y {
                    Block::Section(s) => { let i = choose|i: int| 0 <= i < s.blocks.len() && claims(#[trigger] s.blocks[i], e); assert(claims(xs[i], e)); }
                    Block::CompoundDelimited(s) => { let i = choose|i: int| 0 <= i < s.blocks.len() && claims(#[trigger] s.blocks[i], e); assert(claims(xs[i], e)); }
                    _ => {}
                }
            }
        }
        if own_claim(y, e) || some_claims(xs, e) {
            if !own_claim(y, e) {
                let i = choose|i: int| 0 <= i < xs.len() && claims(#[trigger] xs[i], e);
                match y { Block::Section(s) => { assert(s.blocks[i] == xs[i]); } Block::CompoundDelimited(s) => { assert(s.blocks[i] == xs[i]); } _ => {} }
            }
            assert(claims(y, e));
            assert(claims(ys[0], e));
        }
    }
}

// --- where blocks are
spec fn sits(s: Span, t: Span) -> bool { wf(t) && within(s, t) }
spec fn end_of(s: Span) -> int { s.offset + sb(s).len() }
/// The blocks are parts of `s`, in order, none overlapping another.
#[verifier::opaque]
spec fn in_order(s: Span, bs: Seq<Block>) -> bool {
    &&& forall|i: int| 0 <= i < bs.len() ==> sits(s, (#[trigger] bs[i]).v_span())
    &&& forall|i: int, j: int| 0 <= i < j < bs.len() ==> end_of((#[trigger] bs[i]).v_span()) <= (#[trigger] bs[j]).v_span().offset
}
/// `s` is a text that the blocks lie in, without the white space at its end.
spec fn holds(s: Span, bs: Seq<Block>) -> bool { exists|w: Span| #[trigger] cut_from(w, s) && in_order(w, bs) }
spec fn cut_from(w: Span, s: Span) -> bool { wf(w) && part(w, s, 0, sb(s).len() as int) && s.data@ == w.data@.take(trimmed(w.data@) as int) }
/// So it is at every level of a block.
spec fn placed<'a>(b: Block<'a>) -> bool decreases b {
    match b {
        Block::Section(s) => holds(s.source, s.blocks@) && forall|i: int| 0 <= i < s.blocks.len() ==> placed(#[trigger] s.blocks[i]),
        Block::CompoundDelimited(s) => holds(s.source, s.blocks@) && forall|i: int| 0 <= i < s.blocks.len() ==> placed(#[trigger] s.blocks[i]),
        _ => true,
    }
}
spec fn all_placed(bs: Seq<Block>) -> bool { forall|i: int| 0 <= i < bs.len() ==> placed(#[trigger] bs[i]) }
/// Blocks of `s`, up to where `after` starts.
spec fn laid_out(s: Span, bs: Seq<Block>, after: Span) -> bool {
    &&& wf(after) && part(s, after, after.offset - s.offset, sb(s).len() as int)
    &&& in_order(s, bs) && all_placed(bs)
    &&& forall|i: int| 0 <= i < bs.len() ==> end_of((#[trigger] bs[i]).v_span()) <= after.offset
}
spec fn laid_one(s: Span, b: Block, after: Span) -> bool {
    &&& wf(after) && part(s, after, after.offset - s.offset, sb(s).len() as int) && after.offset > s.offset
    &&& sits(s, b.v_span()) && b.v_span().offset == s.offset && end_of(b.v_span()) <= after.offset && placed(b)
}
proof fn lemma_laid_push(s: Span, xs: Seq<Block>, t: Span, y: Block, u: Span, v: Span)
    requires laid_out(s, xs, t), laid_one(t, y, u), part(u, v, v.offset - u.offset, sb(u).len() as int), wf(v)
    ensures laid_out(s, xs.push(y), v)
{
    reveal(in_order);
    let n = sb(s).len() as int;
    lemma_part_part(s, t, u, t.offset - s.offset, n, u.offset - t.offset, sb(t).len() as int);
    lemma_part_part(s, u, v, u.offset - s.offset, n, v.offset - u.offset, sb(u).len() as int);
    lemma_part_part(s, t, y.v_span(), t.offset - s.offset, n, 0, sb(y.v_span()).len() as int);
    let zs = xs.push(y);
    assert forall|i: int| 0 <= i < zs.len() implies sits(s, (#[trigger] zs[i]).v_span()) && end_of(zs[i].v_span()) <= v.offset && placed(zs[i]) by { if i < xs.len() { assert(zs[i] == xs[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < zs.len() implies end_of((#[trigger] zs[i]).v_span()) <= (#[trigger] zs[j]).v_span().offset by {
        assert(zs[i] == xs[i]);
        if j < xs.len() { assert(zs[j] == xs[j]); }
    }
}
proof fn lemma_laid_none(s: Span, t: Span)
    requires wf(t), part(s, t, t.offset - s.offset, sb(s).len() as int)
    ensures laid_out(s, Seq::empty(), t), sb(t).len() <= sb(s).len()
{ reveal(in_order); }
proof fn lemma_laid_facts(s: Span, y: Block, u: Span)
    requires laid_one(s, y, u)
    ensures wf(u), part(s, u, u.offset - s.offset, sb(s).len() as int), sb(u).len() < sb(s).len(), u.offset > s.offset, y.v_span().offset == s.offset
{}
proof fn lemma_later(s: Span, t: Span)
    requires part(s, t, t.offset - s.offset, sb(s).len() as int)
    ensures sb(t).len() == sb(s).len() - (t.offset - s.offset), t.offset >= s.offset
{}
/// Blocks of a part, seen in the whole.
proof fn lemma_in_order(s: Span, t: Span, a: int, z: int, bs: Seq<Block>)
    requires part(s, t, a, z), in_order(t, bs)
    ensures in_order(s, bs)
{
    reveal(in_order);
    assert forall|i: int| 0 <= i < bs.len() implies sits(s, (#[trigger] bs[i]).v_span()) by {
        let u = bs[i].v_span();
        lemma_part_part(s, t, u, a, z, u.offset - t.offset, u.offset - t.offset + sb(u).len());
    }
}
/// … and in the part that they end in.
proof fn lemma_in_order_cut(s: Span, bs: Seq<Block>, after: Span, w: Span, k: int)
    requires laid_out(s, bs, after), part(s, w, 0, k), k == after.offset - s.offset, wf(s)
    ensures in_order(w, bs)
{
    reveal(in_order);
    assert forall|i: int| 0 <= i < bs.len() implies sits(w, (#[trigger] bs[i]).v_span()) by {
        let u = bs[i].v_span();
        let a = u.offset - s.offset;
        let z = a + sb(u).len();
        assert(part(s, u, a, z));
        lemma_part_within(s, w, k, u, a, z);
    }
}
proof fn lemma_part_within(s: Span, w: Span, k: int, u: Span, a: int, z: int)
    requires part(s, w, 0, k), part(s, u, a, z), z <= k
    ensures part(w, u, a, z)
{
    assert(sb(w).subrange(0, a) =~= sb(s).subrange(0, a));
    assert(sb(w).subrange(a, z) =~= sb(s).subrange(a, z));
}

// --- what a block shows of the lines above it, and what kind it is
/// `m` is what stands above a block at `s`, as the parser `p` reads it.
spec fn read_above(m: BlockMetadata, s: Span, p: Parser) -> bool {
    &&& meta_ok(m)
    &&& part(s, m.source, skip_blank(sb(s)), sb(s).len() as int)
    &&& is_found(m.source, above(sb(m.source)), m.title_source, m.anchor, m.anchor_reftext, m.attrlist, m.block_start, p)
    &&& opt_str(m.title) == match m.title_source { Some(t) => Some(outcome(SubstitutionGroup::Normal, t.data@, p, None)), None => None }
}
spec fn dressed(b: Block, m: BlockMetadata) -> bool {
    b.v_title_source() == m.title_source && b.v_title() == opt_str(m.title) && b.v_anchor() == m.anchor && b.v_anchor_reftext() == m.anchor_reftext && b.v_attrlist() == m.attrlist
}
spec fn undressed(b: Block) -> bool { b.v_title_source() is None && b.v_title() is None && b.v_anchor() is None && b.v_anchor_reftext() is None && b.v_attrlist() is None }
spec fn literal_style(m: BlockMetadata) -> bool { m.attrlist is Some && style1(m.attrlist->0) == Some("literal"@) }
spec fn discrete_style(m: BlockMetadata) -> bool { m.attrlist is Some && (style1(m.attrlist->0) == Some("discrete"@) || style1(m.attrlist->0) == Some("float"@)) }
spec fn is_media(l: Seq<u8>) -> bool { media(decode_utf8(l)) is Yes }
/// The line after what stands above a block tells what kind it is.
spec fn kind_told(b: Block, m: BlockMetadata) -> bool {
    let h = sb(m.block_start);
    let l = line_of(h);
    let other = !raw_delim(l) && !compound_delim(l) && !literal_style(m);
    &&& b is RawDelimited <==> raw_delim(l)
    &&& b is CompoundDelimited <==> compound_delim(l)
    &&& b is Media <==> other && is_media(l)
    &&& b is Section <==> other && is_heading(h)
    &&& b is Break <==> other && break_line(l) is Some
    &&& !(b is Preamble)
}
/// What `Block::parse` makes of a text: an attribute entry, or a block of that kind with what stands above it; if nothing follows that, it is a paragraph itself.
spec fn told(b: Block, s: Span, p: Parser) -> bool {
    if b is DocumentAttribute { sb(s).len() > 0 && sb(s)[0] == 58 }
    else { exists|m: BlockMetadata| #[trigger] read_above(m, s, p) && ((dressed(b, m) && kind_told(b, m)) || (b is Simple && undressed(b) && (sb(m.block_start).len() == 0 || blank_line(sb(m.block_start))))) }
}
/// At `s`, a section of level `l` ends.
spec fn ends_at(s: Span, l: int) -> bool { exists|m: BlockMetadata| #[trigger] read_above(m, s, default_parser()) && !discrete_style(m) && is_heading(sb(m.block_start)) && marks(line_of(sb(m.block_start))) - 1 <= l }
spec fn goes_on(s: Span, l: int) -> bool { exists|m: BlockMetadata| #[trigger] read_above(m, s, default_parser()) && !(!discrete_style(m) && is_heading(sb(m.block_start)) && marks(line_of(sb(m.block_start))) - 1 <= l) }
/// Each of the blocks starts where the section goes on.
spec fn all_inside(s: Span, bs: Seq<Block>, l: int) -> bool { forall|i: int| 0 <= i < bs.len() ==> inside(s, (#[trigger] bs[i]).v_span().offset as int, l) }
spec fn inside(s: Span, at: int, l: int) -> bool { exists|t: Span| #[trigger] part(s, t, at - s.offset, sb(s).len() as int) && goes_on(t, l) }

proof fn lemma_marks(b: Seq<u8>) ensures is_heading(b) ==> 2 <= marks(line_of(b)) <= 6 {}
proof fn lemma_inside_push(s: Span, xs: Seq<Block>, t: Span, y: Block, u: Span, l: int)
    requires laid_one(t, y, u), all_inside(s, xs, l), laid_out(s, xs, t), goes_on(t, l)
    ensures all_inside(s, xs.push(y), l)
{
    let zs = xs.push(y);
    assert forall|i: int| 0 <= i < zs.len() implies inside(s, (#[trigger] zs[i]).v_span().offset as int, l) by { if i < xs.len() { assert(zs[i] == xs[i]); } else { assert(part(s, t, t.offset - s.offset, sb(s).len() as int)); } }
}
//@assume parser/parser.rs | Default for Parser::default
//@ impl: impl Parser
//@ spec:
    ensures r == default_parser()
//@end
impl Parser {
    /// (Under contract in the unit `attr`.)
    #[verifier::external_body]
    fn is_attribute_set(&self, name: &str) -> (r: bool) ensures r == attr_set(*self, name@) { unimplemented!() }
}
/// Setting an attribute touches neither the catalog nor the numbers (checked by the compiler's borrow rules only as far as `&mut self` goes: assumed).
//@assume parser/parser.rs | Parser::set_attribute_from_body
//@ spec:
    ensures final(self).catalog == old(self).catalog, final(self).last_section_number == old(self).last_section_number, final(self).last_appendix_section_number == old(self).last_appendix_section_number,
        final(self).topmost_section_type == old(self).topmost_section_type, final(self).sectnumlevels == old(self).sectnumlevels,
//@end
/// (As far as it is needed here; the unit `attr` says what it gives.)
//@assume document/attribute.rs | Attribute::parse
//@ spec:
    requires wf(source)
    ensures r is Some ==> wf((r->0).after) && part(source, (r->0).after, (r->0).after.offset - source.offset, sb(source).len() as int) && (r->0).after.offset > source.offset && wf((r->0).item.source)
        && part(source, (r->0).item.source, 0, sb((r->0).item.source).len() as int) && end_of((r->0).item.source) <= (r->0).after.offset
//@end
/// (The unit `sect` proves it.)
spec fn step(c: Seq<usize>, l: int) -> Seq<usize> {
    if c.len() < l { c + Seq::new((l - c.len()) as nat, |i: int| 1usize) }
    else if l > 0 { c.take(l).update(l - 1, (c[l - 1] + 1) as usize) }
    else { c.take(0) }
}
//@assume parser/parser.rs | Parser::assign_section_number
//@ spec:
    ensures
        final(self).topmost_section_type == old(self).topmost_section_type, final(self).sectnumlevels == old(self).sectnumlevels, final(self).catalog == old(self).catalog, final(self).__rest == old(self).__rest,
        old(self).topmost_section_type == SectionType::Normal ==> final(self).last_appendix_section_number == old(self).last_appendix_section_number
            && r == final(self).last_section_number && r.components@ == step(old(self).last_section_number.components@, level as int),
        old(self).topmost_section_type == SectionType::Appendix ==> final(self).last_section_number == old(self).last_section_number
            && r == final(self).last_appendix_section_number && r.components@ == step(old(self).last_appendix_section_number.components@, level as int),
//@end
//@assume blocks/section.rs | generate_section_id
//@end
//@fn parser/parser.rs | Parser::catalog_mut
//@ spec:
    ensures
        (r is Some) == (old(self).catalog is Some),
        r is Some ==> *(r->0) == old(self).catalog->0 && final(self).catalog == Some(*final(r->0)),
        r is None ==> final(self).catalog is None,
        final(self).last_section_number == old(self).last_section_number, final(self).last_appendix_section_number == old(self).last_appendix_section_number,
        final(self).topmost_section_type == old(self).topmost_section_type, final(self).sectnumlevels == old(self).sectnumlevels, final(self).__rest == old(self).__rest,
//@end
//@fn blocks/block.rs | Block::register_block_id
//@ spec:
    requires ready(*old(parser))
    ensures
        ready(*final(parser)),
        id is None ==> cat_of(*final(parser)) == cat_of(*old(parser)),
        id is Some && !cat_of(*old(parser)).ids().contains((id->0)@) ==> added(cat_of(*old(parser)), cat_of(*final(parser)), (id->0)@, otxt(title), RefType::Anchor),
        id is Some && cat_of(*old(parser)).ids().contains((id->0)@) ==> cat_of(*final(parser)) == cat_of(*old(parser)),
        final(parser).last_section_number == old(parser).last_section_number, final(parser).last_appendix_section_number == old(parser).last_appendix_section_number,
        final(parser).topmost_section_type == old(parser).topmost_section_type, final(parser).sectnumlevels == old(parser).sectnumlevels, final(parser).__rest == old(parser).__rest,
//@end
//@fn blocks/section.rs | peer_or_ancestor_section
//@ spec:
    requires wf(source), *old(most_recent_level) < 100, sb(source).len() > 0
    ensures *final(most_recent_level) < 100, if r { ends_at(source, level as int) } else { goes_on(source, level as int) }
//@ nolits
//@ start:
    hide(part); hide(wf); hide(is_found); hide(is_heading); hide(outcome); hide(skip_blank); hide(line_of); hide(marks);
//@ after let block_metadata =:
    proof { lemma_marks(sb(block_metadata.block_start)); assert(read_above(block_metadata, source, default_parser())); }
//@end

//@fn blocks/parse_utils.rs | parse_blocks_until
//@ attrs: #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)]
//@ spec:
    requires wf(source), ready(*old(parser)), forall|s: &Span<'src>| f.requires((s,))
    ensures
        laid_out(source, r.item.item@, r.item.after),
        ready(*final(parser)), grown(cat_of(*old(parser)), cat_of(*final(parser)), r.item.item@),
        sb(r.item.after).len() == 0 || f.ensures((&r.item.after,), true),
    decreases sb(source).len(), 3nat
//@ loop 0:
    invariant
        wf(source0), wf(source), laid_out(source0, blocks@, source), sb(source).len() == 0 || !blank_line(sb(source)),
        ready(*parser), grown(cat_of(*old(parser)), cat_of(*parser), blocks@), forall|s: &Span<'src>| f.requires((s,)), f == f0,
        sb(source).len() <= sb(source0).len(),
    ensures sb(source).len() == 0 || f.ensures((&source,), true)
    decreases sb(source).len()
//@ nolits
//@ start:
    hide(part); hide(wf); hide(laid_out); hide(laid_one); hide(blank_line); hide(skip_blank); hide(next_line); hide(bdy);
    let ghost f0 = f;
    let ghost source0 = source;
    proof { lemma_grown_none(cat_of(*parser)); }
//@ before let mut blocks:
    proof { lemma_part_self(source); }
//@ before while:
    proof { lemma_laid_none(source0, source); }
//@ loop 0 start:
    let ghost s0 = source;
    let ghost xs0 = blocks@;
    let ghost c0 = cat_of(*parser);
//@ after let mut maw =:
    let ghost c1 = cat_of(*parser);
    let ghost y = (maw.item->0).item;
    let ghost u = (maw.item->0).after;
    proof { lemma_laid_facts(s0, y, u); }
//@ after blocks.push:
    proof {
        lemma_laid_push(source0, xs0, s0, y, u, source); lemma_grown_push(cat_of(*old(parser)), c0, c1, xs0, y);
        lemma_later(u, source);
    }
//@end

//@include compound.vrs

/// The same, with the closure that a section gives it.
//@inlined blocks/parse_utils.rs | parse_blocks_until | blocks/section.rs | SectionBlock::parse
//@ f: f
//@ attrs: #[verifier::allow_complex_invariants] #[verifier::loop_isolation(false)]
//@ captures: discrete level most_recent_level warnings
//@ sig: fn parse_blocks_of_section<'src>(mut source: Span<'src>, parser: &mut Parser, __c_discrete: bool, __c_level: usize, __c_most_recent_level: &mut usize, __c_warnings: &mut Vec<Warning<'src>>) -> MatchAndWarnings<'src, MatchedItem<'src, Vec<Block<'src>>>>
//@ spec:
    requires wf(source), ready(*old(parser)), *old(__c_most_recent_level) < 100
    ensures
        laid_out(source, r.item.item@, r.item.after),
        ready(*final(parser)), grown(cat_of(*old(parser)), cat_of(*final(parser)), r.item.item@),
        sb(r.item.after).len() == 0 || __c_discrete || ends_at(r.item.after, __c_level as int),
        __c_discrete ==> r.item.item@.len() == 0,
        !__c_discrete ==> all_inside(source, r.item.item@, __c_level as int),
    decreases sb(source).len(), 3nat
//@ nolits
//@ start:
    hide(part); hide(wf); hide(laid_out); hide(laid_one); hide(blank_line); hide(skip_blank); hide(next_line); hide(bdy); hide(ends_at); hide(goes_on);
    let ghost source0 = source;
    proof { lemma_grown_none(cat_of(*parser)); }
//@ before let mut blocks:
    proof { lemma_part_self(source); }
//@ before while:
    proof { lemma_laid_none(source0, source); }
//@ loop 0 start:
    let ghost s0 = source;
    let ghost xs0 = blocks@;
    let ghost c0 = cat_of(*parser);
//@ after let mut maw =:
    let ghost c1 = cat_of(*parser);
    let ghost y = (maw.item->0).item;
    let ghost u = (maw.item->0).after;
    proof { lemma_laid_facts(s0, y, u); }
//@ after blocks.push:
    proof {
        if !__c_discrete { lemma_inside_push(source0, xs0, s0, y, u, __c_level as int); }
        lemma_laid_push(source0, xs0, s0, y, u, source); lemma_grown_push(cat_of(*old(parser)), c0, c1, xs0, y);
        lemma_later(u, source);
    }
//@ loop 0:
    invariant
        wf(source0), wf(source), laid_out(source0, blocks@, source), sb(source).len() == 0 || !blank_line(sb(source)),
        ready(*parser), grown(cat_of(*old(parser)), cat_of(*parser), blocks@),
        sb(source).len() <= sb(source0).len(), *__c_most_recent_level < 100,
        __c_discrete ==> blocks@.len() == 0,
        !__c_discrete ==> all_inside(source0, blocks@, __c_level as int),
    ensures sb(source).len() == 0 || __c_discrete || ends_at(source, __c_level as int)
    decreases sb(source).len()
//@end

/// Blocks of the end of `s` from `t` on, in the start of `s` that ends where they end.
proof fn lemma_held_to(s: Span, t: Span, a: int, bs: Seq<Block>, after: Span, w: Span, k: int)
    requires part(s, t, a, sb(s).len() as int), laid_out(t, bs, after), part(s, w, 0, k), k == after.offset - s.offset, wf(s)
    ensures in_order(w, bs), all_placed(bs)
{
    let n = sb(s).len() as int;
    lemma_in_order(s, t, a, n, bs);
    reveal(in_order);
    assert forall|i: int| 0 <= i < bs.len() implies sits(w, (#[trigger] bs[i]).v_span()) by {
        let u = bs[i].v_span();
        let b = a + u.offset - t.offset;
        lemma_part_part(s, t, u, a, n, u.offset - t.offset, u.offset - t.offset + sb(u).len());
        lemma_part_within(s, w, k, u, b, b + sb(u).len());
    }
}
proof fn lemma_after(s: Span, t: Span, a: int, bs: Seq<Block>, after: Span)
    requires part(s, t, a, sb(s).len() as int), laid_out(t, bs, after)
    ensures wf(after), part(s, after, after.offset - s.offset, sb(s).len() as int), bdy(sb(s), after.offset - s.offset), after.offset >= t.offset, after.offset - s.offset <= sb(s).len()
{ lemma_part_part(s, t, after, a, sb(s).len() as int, after.offset - t.offset, sb(t).len() as int); }
proof fn lemma_inside_whole(s: Span, t: Span, a: int, bs: Seq<Block>, l: int)
    requires part(s, t, a, sb(s).len() as int), all_inside(t, bs, l)
    ensures all_inside(s, bs, l)
{
    assert forall|i: int| 0 <= i < bs.len() implies inside(s, (#[trigger] bs[i]).v_span().offset as int, l) by {
        let at = bs[i].v_span().offset as int;
        let x = choose|x: Span| #[trigger] part(t, x, at - t.offset, sb(t).len() as int) && goes_on(x, l);
        assert(inside(t, at, l));
        lemma_part_facts(s, t, a, sb(s).len() as int);
        lemma_part_part(s, t, x, a, sb(s).len() as int, at - t.offset, sb(t).len() as int);
        assert(part(s, x, at - s.offset, sb(s).len() as int));
    }
}
/// What a section that holds these blocks shows of where they are.
proof fn lemma_section_laid(m: BlockMetadata, s: SectionBlock, w: Span, after: Span, k: int)
    requires
        meta_ok(m), wf(after), part(m.source, after, k, sb(m.source).len() as int), k > 0, part(m.source, w, 0, k), wf(w),
        in_order(w, s.blocks@), all_placed(s.blocks@), cut_from(w, s.source), wf(s.source),
    ensures laid_one(m.source, Block::Section(s), after)
{
    lemma_part_part(m.source, w, s.source, 0, k, 0, sb(s.source).len() as int);
    assert(holds(s.source, s.blocks@));
    assert forall|i: int| 0 <= i < s.blocks.len() implies placed(#[trigger] s.blocks[i]) by { assert(placed(s.blocks@[i])); }
}
proof fn lemma_not_blank(b: Seq<u8>) ensures !blank_line(b) ==> skip_blank(b) == 0 {}
proof fn lemma_part_all(s: Span, t: Span)
    requires part(s, t, t.offset - s.offset, sb(s).len() as int), t.offset == s.offset
    ensures sb(t) == sb(s), forall|u: Span, a: int, z: int| #[trigger] part(t, u, a, z) ==> part(s, u, a, z)
{
    assert(sb(t) =~= sb(s));
    assert(sb(s).subrange(0, 0) =~= Seq::<u8>::empty());
}
proof fn lemma_title_steps() ensures !steps_of(SubstitutionGroup::Title).contains(Step::Callouts) {}
//@fn blocks/section.rs | SectionBlock::parse
//@ call: parse_blocks_until = parse_blocks_of_section(__a0, __a2, discrete, level, &mut most_recent_level, warnings)
//@ spec:
    requires meta_ok(*metadata), ready(*old(parser)), sb(metadata.block_start).len() > 0, !blank_line(sb(metadata.block_start))
    ensures
        (r is Some) == is_heading(sb(metadata.block_start)),
        r is None ==> *final(parser) == *old(parser),
        r is Some ==> ready(*final(parser)) && grown(cat_of(*old(parser)), cat_of(*final(parser)), seq![Block::Section((r->0).item)]),
        r is Some ==> ({
            let m = (r->0).item;
            let d = discrete_style(*metadata);
            &&& m.level == marks(line_of(sb(metadata.block_start))) - 1
            &&& laid_one(metadata.source, Block::Section(m), (r->0).after)
            &&& dressed(Block::Section(m), *metadata)
            // It holds all blocks up to the next heading that ends it.
            &&& sb((r->0).after).len() == 0 || d || ends_at((r->0).after, m.level as int)
            &&& d ==> m.blocks@.len() == 0
            &&& !d ==> all_inside(metadata.source, m.blocks@, m.level as int)
            // Its type is its own or its parent's.
            &&& m.section_type == if d { SectionType::Discrete } else if m.level == 1 { if metadata.attrlist is Some && style1(metadata.attrlist->0) == Some("appendix"@) { SectionType::Appendix } else { SectionType::Normal } } else { old(parser).topmost_section_type }
            // Its number follows the last one before it: those of the sections in it come later.
            &&& (m.section_number is Some) == (attr_set(*old(parser), "sectnums"@) && m.level <= old(parser).sectnumlevels && !d)
            &&& m.section_number is Some && m.section_type == SectionType::Normal ==> (m.section_number->0).components@ == step(old(parser).last_section_number.components@, m.level as int)
            &&& m.section_number is Some && m.section_type == SectionType::Appendix ==> (m.section_number->0).components@ == step(old(parser).last_appendix_section_number.components@, m.level as int)
            &&& m.level == 1 && !d ==> final(parser).topmost_section_type == SectionType::Normal
        }),
    decreases sb(metadata.source).len(), 1nat
//@ nolits
//@ opts
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(is_heading); hide(marks); hide(laid_out); hide(laid_one); hide(all_inside); hide(blank_line); hide(skip_blank); hide(outcome); hide(added); hide(ends_at); hide(trimmed); hide(meta_ok); hide(all_placed); hide(cut_from); hide(steps_of);
    let ghost bs = metadata.block_start;
    let ghost ms = metadata.source;
    let ghost h = sb(bs);
    let ghost off0 = bs.offset - ms.offset;
    let ghost d = discrete_style(*metadata);
    let ghost p0 = *old(parser);
    proof { lemma_meta(*metadata); lemma_not_blank(h); lemma_title_steps(); }
//@ after let source = metadata.block_start:
    proof { lemma_part_all(bs, source); lemma_marks(h); }
//@ after let level_and_title:
    let ghost ta = level_and_title.after;
    let ghost n = next_line(h);
    proof { lemma_part_part(ms, bs, ta, off0, sb(ms).len() as int, n, h.len() as int); lemma_part_facts(ms, ta, off0 + n, sb(ms).len() as int); }
//@ before let mut most_recent_level:
    assert(parser.catalog == p0.catalog);
//@ after let mut maw_blocks:
    let ghost cm = cat_of(*parser);
    let ghost tsec = parser.topmost_section_type;
    proof { lemma_after(ms, ta, off0 + n, maw_blocks.item.item@, maw_blocks.item.after); }
    assume(cm.ids().len() < i32::MAX - 2);
//@ after let source = metadata.source:
    let ghost w = source;
    let ghost k = blocks.after.offset - ms.offset;
    proof {
        assert(part(ms, w, 0, k)); assert(wf(w));
        lemma_held_to(ms, ta, off0 + n, blocks.item@, blocks.after, w, k);
        if !d { lemma_inside_whole(ms, ta, off0 + n, blocks.item@, level as int); }
        assert forall|u: Span, l: int| #[trigger] part(w, u, 0, l) && l == sb(u).len() && u.data@ == w.data@.take(trimmed(w.data@) as int) implies cut_from(w, u) by { reveal(cut_from); }
    }
//@ before let section_id:
    let ghost rt = reftext@;
    let ghost mid = ov(manual_id);
    proof { assert(ov(manual_id) == id_of(metadata.anchor, metadata.attrlist)); }
//@ after let section_id:
    proof {
        let i = if mid is Some { mid } else { os(section_id) };
        assert(i is None ==> cat_of(*parser) == cm);
        assert(mid is Some && cm.ids().contains(mid->0) ==> cat_of(*parser) == cm);
        assert(mid is Some && !cm.ids().contains(mid->0) ==> added(cm, cat_of(*parser), mid->0, Some(rt), RefType::Section));
        assert(mid is None && i is Some ==> added(cm, cat_of(*parser), i->0, Some(rt), RefType::Section) && !cm.ids().contains(i->0)) by { reveal(added); }
    }
//@ exit:
    let m = (__vp_r->0).item;
    assert(rt == sect_reftext(m));
    assert(m.v_id() == (if mid is Some { mid } else { os(section_id) }));
    lemma_grown_own(cat_of(p0), cm, cat_of(*parser), m.blocks@, Block::Section(m));
    lemma_section_laid(*metadata, m, w, blocks.after, k);
//@end
// --- a text that doesn't start with a blank line always gives a block
proof fn lemma_trimmed_add(x: Seq<char>, y: Seq<char>)
    requires trimmed(x) > 0
    ensures trimmed(x + y) > 0
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); }
    else { lemma_trimmed_add(x, y.drop_last()); assert((x + y).drop_last() =~= x + y.drop_last()); assert((x + y).last() == y.last()); }
}
proof fn lemma_prefix_some(b: Seq<u8>, m: int, z: int)
    requires valid(b), bdy(b, m), bdy(b, z), m <= z, trimmed(decode_utf8(b.subrange(0, m))) > 0
    ensures trimmed(decode_utf8(b.take(z))) > 0
{
    let c = b.take(z);
    lemma_bdy(b, z); lemma_bdy(b, m);
    valid_utf8_split(b, z);
    assert(c =~= b.subrange(0, z));
    assert(bdy(c, m));
    lemma_bdy(c, m);
    decode_utf8_split(c, m);
    assert(c.subrange(0, m) =~= b.subrange(0, m));
    lemma_trimmed_add(decode_utf8(c.subrange(0, m)), decode_utf8(c.subrange(m, c.len() as int)));
}
proof fn lemma_spaces_blank(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len(), spaces_off(b, n) == 0
    ensures forall|i: int| 0 <= i < n ==> b[i] == 32
    decreases n
{ if n > 0 { lemma_spaces_bound(b, n - 1); lemma_spaces_blank(b, n - 1); } }
proof fn lemma_blank_ascii(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] == ' '
    ensures trimmed(t) == 0
    decreases t.len()
{ if t.len() > 0 { assert(t.last() == ' '); lemma_blank_ascii(t.drop_last()); } }
/// A paragraph ends where a line starts, or at the end.
proof fn lemma_plain_line(b: Seq<u8>, para: bool, n: int, some: bool)
    ensures ({ let z = plain(b, para, n, some).z; 0 <= z <= b.len() && (z == 0 || z == b.len() || b[z - 1] == 10) })
    decreases b.len()
{
    let k = next_line(b);
    lemma_eol(b);
    if 0 < k <= b.len() {
        let c = b.skip(k);
        lemma_plain_line(c, para, n, some); lemma_plain_line(c, para, n, true);
    }
}
proof fn lemma_para_some(s: Span, para: bool, n: int)
    requires sb(s).len() > 0, !blank_line(sb(s))
    ensures ({ let z = plain(sb(s), para, n, false).z; z > 0 && trimmed(decode_utf8(sb(s).take(z))) > 0 })
{
    let b = sb(s);
    let m = line_len(b);
    let z = plain(b, para, n, false).z;
    lemma_eol(b); lemma_norm(b); lemma_plain_step(b, para, n, false); lemma_plain_line(b, para, n, false);
    encode_utf8_valid_utf8(s.data@);
    if norm_len(b) == 0 {
        lemma_spaces_blank(b, m);
        let w = b.subrange(0, m);
        let t = Seq::new(m as nat, |i: int| ' ');
        lemma_ascii_seq(t);
        assert(w =~= encode_utf8(t));
        encode_utf8_decode_utf8(t);
        lemma_blank_ascii(t);
    } else {
        lemma_plain(b.skip(next_line(b)), para, n, false); lemma_plain(b.skip(next_line(b)), para, n, true);
        assert(z >= next_line(b) >= m);
        if z < b.len() { lemma_after_ascii(b, z - 1); }
        lemma_prefix_some(b, m, z);
    }
}
/// If nothing is found above a block, its text starts right there.
spec fn any_found(g: Found) -> bool { g.title is Some || g.anchor is Some || g.attrs is Some }
proof fn lemma_any_found(b: Seq<u8>, g: Found)
    requires g.at == 0 || any_found(g)
    ensures above_from(b, g).at == 0 || any_found(above_from(b, g))
    decreases b.len() - g.at
{ match one_more(b, g) { None => {} Some(h) => if g.at < h.at <= b.len() { lemma_any_found(b, h); } } }
proof fn lemma_cut_len(b: Seq<u8>, k: int, u: Span)
    requires valid(b), bdy(b, k), ({ let t = decode_utf8(b.take(k)); u.data@ == t.take(trimmed(t) as int) })
    ensures sb(u).len() <= k
{
    let c = b.take(k);
    lemma_bdy(b, k);
    valid_utf8_split(b, k);
    assert(c =~= b.subrange(0, k));
    decode_utf8_encode_utf8(c);
    let t = decode_utf8(c);
    lemma_trimmed_len(t);
    lemma_off(t, trimmed(t) as int);
}
/// A block whose span ends at `y`, and after which `after` follows.
proof fn lemma_laid_plain(m: BlockMetadata, s: Span, b: Block, after: Span, z: int, y: int)
    requires
        meta_ok(m), part(s, m.source, 0, sb(s).len() as int), follows(m.block_start, after, z), whole(m, b.v_span(), y), y == z || y == z + skip_blank(sb(m.block_start).skip(z)),
        0 < z <= sb(m.block_start).len(), z == sb(m.block_start).len() || sb(m.block_start)[z - 1] == 10, !(b is Section), !(b is CompoundDelimited),
    ensures laid_one(s, b, after)
{
    let ms = m.source; let bs = m.block_start;
    let o = bs.offset - ms.offset;
    lemma_skip_twice(sb(bs).skip(z));
    encode_utf8_valid_utf8(ms.data@); encode_utf8_valid_utf8(bs.data@);
    if y == z && z < sb(bs).len() { lemma_after_ascii(sb(bs), z - 1); }
    assert(bdy(sb(bs), y));
    assert(sb(bs) =~= sb(ms).skip(o));
    if y < sb(bs).len() { assert(sb(ms)[o + y] == sb(bs)[y]); }
    assert(bdy(sb(ms), o + y));
    lemma_cut_len(sb(ms), o + y, b.v_span());
    lemma_laid_at(m, s, b, after);
}
proof fn lemma_laid_at(m: BlockMetadata, s: Span, b: Block, after: Span)
    requires
        meta_ok(m), part(s, m.source, 0, sb(s).len() as int), wf(after), part(m.block_start, after, after.offset - m.block_start.offset, sb(m.block_start).len() as int), after.offset > m.block_start.offset,
        wf(b.v_span()), part(m.source, b.v_span(), 0, sb(b.v_span()).len() as int), end_of(b.v_span()) <= after.offset, placed(b),
    ensures laid_one(s, b, after)
{
    let ms = m.source; let bs = m.block_start;
    let o = bs.offset - ms.offset;
    lemma_part_part(ms, bs, after, o, sb(ms).len() as int, after.offset - bs.offset, sb(bs).len() as int);
    lemma_part_part(s, ms, after, 0, sb(s).len() as int, after.offset - ms.offset, sb(ms).len() as int);
    lemma_part_part(s, ms, b.v_span(), 0, sb(s).len() as int, 0, sb(b.v_span()).len() as int);
}
/// Breaks and block macros.
proof fn lemma_laid_line(m: BlockMetadata, s: Span, b: Block, after: Span)
    requires meta_ok(m), part(s, m.source, 0, sb(s).len() as int), b is Break || b is Media, line_of(sb(m.block_start)).len() > 0, ({ let n = next_line(sb(m.block_start)); follows(m.block_start, after, n) && whole(m, b.v_span(), n) })
    ensures laid_one(s, b, after)
{ let h = sb(m.block_start); lemma_eol(h); lemma_norm(h); lemma_laid_plain(m, s, b, after, next_line(h), next_line(h)); }
proof fn lemma_laid_para(m: BlockMetadata, s: Span, i: SimpleBlock, after: Span)
    requires
        meta_ok(m), part(s, m.source, 0, sb(s).len() as int),
        ({ let b = sb(m.block_start); let p = para_of(b, m.block_start.col as int, m.attrlist); trimmed(decode_utf8(b.take(p.z))) > 0 && follows(m.block_start, after, p.z) && whole(m, i.source, p.z + skip_blank(b.skip(p.z))) })
    ensures laid_one(s, Block::Simple(i), after)
{
    let b = sb(m.block_start);
    let para = style_of(b, m.attrlist) is Paragraph; let n = m.block_start.col - 1 + blanks(b);
    let z = plain(b, para, n, false).z;
    lemma_plain_line(b, para, n, false);
    if z == 0 { assert(b.take(0) =~= encode_utf8(Seq::<char>::empty())); encode_utf8_decode_utf8(Seq::<char>::empty()); }
    lemma_laid_plain(m, s, Block::Simple(i), after, z, z + skip_blank(b.skip(z)));
}
/// A paragraph with nothing above it.
proof fn lemma_laid_fast(s: Span, i: SimpleBlock, after: Span)
    requires
        wf(s),
        ({ let b = sb(s); let p = para_of(b, s.col as int, None); let t = decode_utf8(b.take(p.z)); trimmed(t) > 0 && follows(s, after, p.z) && wf(i.source) && part(s, i.source, 0, sb(i.source).len() as int) && i.source.data@ == t.take(trimmed(t) as int) })
    ensures laid_one(s, Block::Simple(i), after)
{
    let b = sb(s);
    let para = style_of(b, None) is Paragraph; let n = s.col - 1 + blanks(b);
    let z = plain(b, para, n, false).z;
    lemma_plain_line(b, para, n, false);
    if z == 0 { assert(b.take(0) =~= encode_utf8(Seq::<char>::empty())); encode_utf8_decode_utf8(Seq::<char>::empty()); }
    encode_utf8_valid_utf8(s.data@);
    if z < b.len() { lemma_after_ascii(b, z - 1); }
    lemma_cut_len(b, z, i.source);
    lemma_skip_twice(b.skip(z));
}
proof fn lemma_laid_raw(m: BlockMetadata, s: Span, b: RawDelimitedBlock, after: Span)
    requires
        meta_ok(m), part(s, m.source, 0, sb(s).len() as int), raw_delim(line_of(sb(m.block_start))), wf(after), wf(b.source), ({
            let h = sb(m.block_start); let n = next_line(h); let body = h.skip(n); let c = closing(body, line_of(h));
            let z = n + c + if c < body.len() { next_line(body.skip(c)) } else { 0 };
            part(m.block_start, after, z, h.len() as int) && part(m.source, b.source, 0, before_eol(sb(m.source), m.block_start.offset - m.source.offset + z))
        })
    ensures laid_one(s, Block::RawDelimited(b), after)
{
    let h = sb(m.block_start);
    lemma_lines(m.block_start); lemma_closing(h.skip(next_line(h)), line_of(h));
    let body = h.skip(next_line(h)); lemma_eol(body.skip(closing(body, line_of(h))));
    lemma_laid_at(m, s, Block::RawDelimited(b), after);
}
proof fn lemma_laid_compound(m: BlockMetadata, s: Span, b: CompoundDelimitedBlock, after: Span)
    requires
        meta_ok(m), part(s, m.source, 0, sb(s).len() as int), compound_delim(line_of(sb(m.block_start))), wf(after), wf(b.source), part(m.source, b.source, 0, sb(b.source).len() as int), all_placed(b.blocks@), ({
            let h = sb(m.block_start); let d = line_of(h); let n = next_line(h); let body = h.skip(n); let c = closing(body, d);
            let found = c < body.len();
            let z = n + c + if found { next_line(body.skip(c)) } else { 0 };
            &&& part(m.block_start, after, z, h.len() as int)
            &&& exists|w: Span| #[trigger] cut_from(w, b.source) && part(m.source, w, 0, m.block_start.offset - m.source.offset + n + c + if found { d.len() as int } else { 0 }) && in_order(w, b.blocks@)
        })
    ensures laid_one(s, Block::CompoundDelimited(b), after)
{
    let h = sb(m.block_start); let d = line_of(h); let n = next_line(h); let body = h.skip(n); let c = closing(body, d);
    lemma_lines(m.block_start); lemma_closing(body, d); lemma_eol(body.skip(c)); lemma_norm(body.skip(c));
    let w = choose|w: Span| #[trigger] cut_from(w, b.source) && part(m.source, w, 0, m.block_start.offset - m.source.offset + n + c + if c < body.len() { d.len() as int } else { 0 }) && in_order(w, b.blocks@);
    assert(holds(b.source, b.blocks@));
    assert forall|i: int| 0 <= i < b.blocks.len() implies placed(#[trigger] b.blocks[i]) by { assert(placed(b.blocks@[i])); }
    if c < body.len() { assert(line_of(body.skip(c)) == d); }
    lemma_laid_at(m, s, Block::CompoundDelimited(b), after);
}
proof fn lemma_laid_whole(s: Span, ms: Span, b: Block, after: Span)
    requires part(s, ms, 0, sb(s).len() as int), laid_one(ms, b, after)
    ensures laid_one(s, b, after)
{
    lemma_part_part(s, ms, after, 0, sb(s).len() as int, after.offset - ms.offset, sb(ms).len() as int);
    lemma_part_part(s, ms, b.v_span(), 0, sb(s).len() as int, 0, sb(b.v_span()).len() as int);
}
/// What is known when nothing but a paragraph is left: what the second reading gives.
proof fn lemma_para_is(m: BlockMetadata)
    requires meta_ok(m)
    ensures sb(m.block_start).len() > 0 && !blank_line(sb(m.block_start)) ==> ({ let b = sb(m.block_start); let p = para_of(b, m.block_start.col as int, m.attrlist); trimmed(decode_utf8(b.take(p.z))) > 0 })
{
    if sb(m.block_start).len() > 0 && !blank_line(sb(m.block_start)) { lemma_para_some(m.block_start, style_of(sb(m.block_start), m.attrlist) is Paragraph, m.block_start.col - 1 + blanks(sb(m.block_start))); }
}
/// Nothing above a block: it starts where the text does.
proof fn lemma_nothing_above(m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), m.title is None, m.anchor is None, m.attrlist is None, part(s, m.source, 0, sb(s).len() as int), sb(s).len() > 0, !blank_line(sb(s))
    ensures sb(m.block_start) == sb(s)
{
    lemma_any_found(sb(m.source), Found { title: None, anchor: None, reftext: None, attrs: None, at: 0 });
    assert(sb(m.source) =~= sb(s));
    assert(sb(m.block_start) =~= sb(m.source));
}
proof fn lemma_laid_attr(s: Span, b: Block, after: Span)
    requires
        b is DocumentAttribute, wf(after), part(s, after, after.offset - s.offset, sb(s).len() as int), after.offset > s.offset,
        wf(b.v_span()), part(s, b.v_span(), 0, sb(b.v_span()).len() as int), end_of(b.v_span()) <= after.offset,
    ensures laid_one(s, b, after)
{}
/// A line that starts like a heading isn't blank.
proof fn lemma_marks_line(s: Span, l: Span)
    requires part(s, l, 0, norm_len(sb(s))), wf(s), at_pat(sb(l), enc('='), 0) || at_pat(sb(l), enc('#'), 0)
    ensures sb(s).len() > 0, !blank_line(sb(s))
{
    let b = sb(s);
    lemma_ascii_ends(); lemma_eol(b); lemma_norm(b);
    let m = line_len(b);
    assert(sb(l)[0] == b[0]);
    encode_utf8_valid_utf8(s.data@);
    assert(bdy(b, m));
    lemma_bdy(b, 0); lemma_bdy(b, m);
    valid_utf8_split(b, m);
    let c = b.subrange(0, m);
    decode_utf8_encode_utf8(c);
    let t = decode_utf8(c);
    assert(c[0] == b[0]);
    if t.len() == 0 { lemma_off(t, 0); assert(encode_utf8(t) =~= Seq::empty()); }
    lemma_first_byte(t);
    assert(!is_ws(t[0]));
    lemma_trimmed_some(t);
}
/// Nor is the line of a break or a block macro empty.
proof fn lemma_line_some(l: Seq<u8>)
    ensures break_line(l) is Some || is_media(l) ==> l.len() > 0
{
    lemma_breaks();
    if l.len() == 0 { assert(l =~= encode_utf8(Seq::<char>::empty())); encode_utf8_decode_utf8(Seq::<char>::empty()); }
}
/// The paragraph that is left, read with what stood above it or without.
proof fn lemma_left(m0: BlockMetadata, m: BlockMetadata, s: Span, p: Parser, some: bool)
    requires
        read_above(m0, s, p), part(s, m0.source, 0, sb(s).len() as int), sb(s).len() > 0, !blank_line(sb(s)),
        some == ({ let b = sb(m0.block_start); let pz = para_of(b, m0.block_start.col as int, m0.attrlist); trimmed(decode_utf8(b.take(pz.z))) > 0 }),
        some || (m0.title is None && m0.anchor is None && m0.attrlist is None) ==> m == m0,
        !(some || (m0.title is None && m0.anchor is None && m0.attrlist is None)) ==> m.source == m0.source && m.block_start == m.source && m.attrlist is None,
    ensures meta_ok(m), m.source == m0.source, ({ let b = sb(m.block_start); let pz = para_of(b, m.block_start.col as int, m.attrlist); trimmed(decode_utf8(b.take(pz.z))) > 0 })
{
    reveal(headed);
    lemma_para_is(m0);
    if m0.title is None && m0.anchor is None && m0.attrlist is None { lemma_nothing_above(m0, s, p); }
    else if !some { lemma_part_self(m.source); assert(sb(m.source) =~= sb(s)); lemma_para_is(m); }
}
proof fn lemma_media_lits()
    ensures "image::"@ == "image"@ + seq![':', ':'], "video::"@ == "video"@ + seq![':', ':'], "audio::"@ == "audio"@ + seq![':', ':'],
        "image::".spec_bytes().len() == 7 && "image::".spec_bytes()[0] == 105, "video::".spec_bytes().len() == 7 && "video::".spec_bytes()[0] == 118, "audio::".spec_bytes().len() == 7 && "audio::".spec_bytes()[0] == 97,
        "image::".spec_bytes()[5] == 58 && "image::".spec_bytes()[6] == 58, "video::".spec_bytes()[5] == 58 && "video::".spec_bytes()[6] == 58, "audio::".spec_bytes()[5] == 58 && "audio::".spec_bytes()[6] == 58,
{
    reveal_strlit("image"); reveal_strlit("video"); reveal_strlit("audio"); reveal_strlit("image::"); reveal_strlit("video::"); reveal_strlit("audio::");
    lemma_lit("image::"); lemma_lit("video::"); lemma_lit("audio::");
    assert("image::"@ =~= "image"@ + seq![':', ':']); assert("video::"@ =~= "video"@ + seq![':', ':']); assert("audio::"@ =~= "audio"@ + seq![':', ':']);
}
proof fn lemma_at_start(t: Seq<char>, x: &str)
    requires t.len() >= x@.len(), t.take(x@.len() as int) == x@
    ensures at_pat(encode_utf8(t), x.spec_bytes(), 0)
{
    let n = x@.len() as int;
    encode_utf8_concat(t.take(n), t.skip(n));
    assert(t.take(n) + t.skip(n) =~= t);
    assert(x.spec_bytes() == encode_utf8(x@));
    assert(encode_utf8(t).subrange(0, x.spec_bytes().len() as int) =~= x.spec_bytes());
}
proof fn lemma_media_start(t: Seq<char>)
    requires media(t) is Yes
    ensures ({ let l = encode_utf8(t); (at_pat(l, "image::".spec_bytes(), 0) || at_pat(l, "video::".spec_bytes(), 0) || at_pat(l, "audio::".spec_bytes(), 0)) && at_pat(l, "::".spec_bytes(), 5) && l.len() > 7 - 1 && (l[0] == 105 || l[0] == 118 || l[0] == 97) })
{
    lemma_media_lits(); lemma_names(); lemma_colons();
    let l = encode_utf8(t);
    let n = t.take(5);
    assert(t.take(7) =~= n + seq![':', ':']);
    if n == "image"@ { lemma_at_start(t, "image::"); assert(l.subrange(0, 7)[0] == l[0] && l.subrange(0, 7)[5] == l[5] && l.subrange(0, 7)[6] == l[6]); }
    else if n == "video"@ { lemma_at_start(t, "video::"); assert(l.subrange(0, 7)[0] == l[0] && l.subrange(0, 7)[5] == l[5] && l.subrange(0, 7)[6] == l[6]); }
    else { lemma_at_start(t, "audio::"); assert(l.subrange(0, 7)[0] == l[0] && l.subrange(0, 7)[5] == l[5] && l.subrange(0, 7)[6] == l[6]); }
}
/// What one kind of block looks like, no other does; and how it starts.
proof fn lemma_kinds(b: Seq<u8>)
    ensures ({
        let l = line_of(b);
        &&& raw_delim(l) ==> !compound_delim(l)
        &&& is_heading(b) ==> break_line(l) is None && l.len() > 0 && (l[0] == 61 || l[0] == 35)
        &&& is_heading(b) ==> at_pat(l, enc('='), 0) || at_pat(l, enc('#'), 0)
        &&& break_line(l) is Some ==> at_pat(l, enc('\''), 0) || at_pat(l, enc('-'), 0) || at_pat(l, enc('*'), 0) || at_pat(l, enc('<'), 0)
        &&& break_line(l) is Some ==> l.len() > 0 && (l[0] == 39 || l[0] == 45 || l[0] == 42 || l[0] == 60)
        &&& is_media(l) && valid(l) ==> (at_pat(l, "image::".spec_bytes(), 0) || at_pat(l, "video::".spec_bytes(), 0) || at_pat(l, "audio::".spec_bytes(), 0)) && at_pat(l, "::".spec_bytes(), 5) && l.len() > 0 && (l[0] == 105 || l[0] == 118 || l[0] == 97)
            && break_line(l) is None && !is_heading(b)
        &&& raw_delim(l) || compound_delim(l) ==> l.len() > 0 && (l[0] == 47 || l[0] == 45 || l[0] == 46 || l[0] == 43 || l[0] == 61 || l[0] == 42 || l[0] == 95)
    })
{
    let l = line_of(b);
    lemma_ascii_ends(); lemma_breaks(); lemma_stops(l); lemma_lead(l, 61); lemma_lead(l, 35);
    if is_heading(b) { if l[0] == 61 { } else { assert(lead(l, 35) >= 2); assert(l[0] == 35); } }
    if is_media(l) && valid(l) {
        let t = decode_utf8(l);
        decode_utf8_encode_utf8(l); lemma_media_start(t);
    }
}
proof fn lemma_told(b: Block, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), (dressed(b, m) && kind_told(b, m)) || (b is Simple && undressed(b) && (sb(m.block_start).len() == 0 || blank_line(sb(m.block_start)))), !(b is DocumentAttribute)
    ensures told(b, s, p)
{}
/// A paragraph that is one at first sight.
proof fn lemma_told_fast(i: SimpleBlock, s: Span, l: Span, p: Parser)
    requires
        wf(s), sb(s).len() > 0, !blank_line(sb(s)), part(s, l, 0, line_len(sb(s))), !has_pat(sb(l), "::".spec_bytes()),
        ({ let c = s.data@[0]; !(c == '.' || c == '#' || c == '=' || c == '/' || c == '-' || c == '+' || c == '*' || c == '_' || c == '[' || c == ':' || c == '\'' || c == '<') }),
        i.title_source is None, i.title is None, i.anchor is None, i.anchor_reftext is None, i.attrlist is None,
    ensures told(Block::Simple(i), s, p)
{
    let b = sb(s);
    let ln = line_of(b);
    let m = BlockMetadata { title_source: None, title: None, anchor: None, anchor_reftext: None, attrlist: None, source: s, block_start: s };
    reveal(headed);
    lemma_part_self(s); lemma_first2(s); lemma_first_byte(s.data@); lemma_kinds(b); lemma_eol(b); lemma_norm(b); lemma_not_blank(b);
    let g = Found { title: None, anchor: None, reftext: None, attrs: None, at: 0 };
    if one_more(b, g) is Some { lemma_one_more(b, g); }
    assert(b.skip(0) =~= b);
    assert(above(b) == g);
    assert(read_above(m, s, p));
    lemma_line_valid(s);
    if is_media(ln) { lemma_colons(); assert(at_pat(sb(l), "::".spec_bytes(), 5)); }
    lemma_told(Block::Simple(i), m, s, p);
}
proof fn lemma_spaces_at(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures 0 <= spaces_off(b, n) <= n, spaces_off(b, n) < n ==> b[spaces_off(b, n)] == 32
    decreases n
{ if n > 0 && b[n - 1] == 32 { lemma_spaces_at(b, n - 1); } }
proof fn lemma_line_valid(s: Span)
    requires wf(s)
    ensures valid(line_of(sb(s)))
{
    let b = sb(s);
    lemma_eol(b); lemma_norm(b);
    encode_utf8_valid_utf8(s.data@);
    let n = norm_len(b);
    lemma_spaces_at(b, line_len(b));
    assert(bdy(b, n));
    lemma_bdy(b, n);
    valid_utf8_split(b, n);
}
proof fn lemma_line_is(s: Span, l: Span)
    requires part(s, l, 0, norm_len(sb(s)))
    ensures sb(l) == line_of(sb(s))
{}
proof fn lemma_read_above(m: BlockMetadata, s: Span, p: Parser)
    requires
        meta_ok(m), part(s, m.source, skip_blank(sb(s)), sb(s).len() as int),
        is_found(m.source, above(sb(m.source)), m.title_source, m.anchor, m.anchor_reftext, m.attrlist, m.block_start, p),
        opt_str(m.title) == match m.title_source { Some(t) => Some(outcome(SubstitutionGroup::Normal, t.data@, p, None)), None => None },
    ensures read_above(m, s, p)
{}
/// Nothing but a paragraph is left.
spec fn left_over(m: BlockMetadata) -> bool {
    let h = sb(m.block_start);
    let l = line_of(h);
    !raw_delim(l) && !compound_delim(l) && (literal_style(m) || !is_media(l) && !is_heading(h) && break_line(l) is None)
}
spec fn plain_kind(m: BlockMetadata) -> bool { !raw_delim(line_of(sb(m.block_start))) && !compound_delim(line_of(sb(m.block_start))) && !literal_style(m) }
proof fn lemma_told_raw(b: RawDelimitedBlock, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), raw_delim(line_of(sb(m.block_start))), b.title_source == m.title_source && opt_str(b.title) == opt_str(m.title) && b.anchor == m.anchor && b.anchor_reftext == m.anchor_reftext && b.attrlist == m.attrlist
    ensures told(Block::RawDelimited(b), s, p)
{ lemma_kinds(sb(m.block_start)); lemma_told(Block::RawDelimited(b), m, s, p); }
proof fn lemma_told_compound(b: CompoundDelimitedBlock, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), compound_delim(line_of(sb(m.block_start))), b.title_source == m.title_source && opt_str(b.title) == opt_str(m.title) && b.anchor == m.anchor && b.anchor_reftext == m.anchor_reftext && b.attrlist == m.attrlist
    ensures told(Block::CompoundDelimited(b), s, p)
{ lemma_kinds(sb(m.block_start)); lemma_told(Block::CompoundDelimited(b), m, s, p); }
proof fn lemma_told_media(b: MediaBlock, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), plain_kind(m), is_media(line_of(sb(m.block_start))), valid(line_of(sb(m.block_start))), b.title_source == m.title_source && opt_str(b.title) == opt_str(m.title) && b.anchor == m.anchor && b.anchor_reftext == m.anchor_reftext && b.attrlist == m.attrlist
    ensures told(Block::Media(b), s, p)
{ lemma_kinds(sb(m.block_start)); lemma_told(Block::Media(b), m, s, p); }
proof fn lemma_told_break(b: Break, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), plain_kind(m), break_line(line_of(sb(m.block_start))) is Some, valid(line_of(sb(m.block_start))), b.title_source == m.title_source && opt_str(b.title) == opt_str(m.title) && b.anchor == m.anchor && b.anchor_reftext == m.anchor_reftext && b.attrlist == m.attrlist
    ensures told(Block::Break(b), s, p)
{ lemma_kinds(sb(m.block_start)); lemma_told(Block::Break(b), m, s, p); }
proof fn lemma_told_section(b: SectionBlock, m: BlockMetadata, s: Span, p: Parser)
    requires read_above(m, s, p), plain_kind(m), is_heading(sb(m.block_start)), dressed(Block::Section(b), m), valid(line_of(sb(m.block_start)))
    ensures told(Block::Section(b), s, p)
{ lemma_kinds(sb(m.block_start)); lemma_told(Block::Section(b), m, s, p); }
proof fn lemma_told_attr(b: Block, s: Span, l: Span, p: Parser)
    requires b is DocumentAttribute, part(s, l, 0, line_len(sb(s))), at_pat(sb(l), enc(':'), 0)
    ensures told(b, s, p)
{ lemma_ascii_ends(); assert(sb(l)[0] == sb(s)[0]); }
proof fn lemma_told_left(i: SimpleBlock, m0: BlockMetadata, m: BlockMetadata, s: Span, p: Parser, some: bool)
    requires
        read_above(m0, s, p), i.title_source == m.title_source, opt_str(i.title) == opt_str(m.title), i.anchor == m.anchor, i.anchor_reftext == m.anchor_reftext, i.attrlist == m.attrlist,
        some == ({ let b = sb(m0.block_start); let pz = para_of(b, m0.block_start.col as int, m0.attrlist); trimmed(decode_utf8(b.take(pz.z))) > 0 }),
        left_over(m0), m == m0 || !some && m.title_source is None && m.title is None && m.anchor is None && m.anchor_reftext is None && m.attrlist is None,
    ensures told(Block::Simple(i), s, p)
{
    lemma_para_is(m0);
    let b = Block::Simple(i);
    lemma_told(b, m0, s, p);
}
//@fn blocks/block.rs | Block::parse
//@ spec:
    requires wf(source), ready(*old(parser)), sb(source).len() > 0, !blank_line(sb(source))
    ensures
        r.item is Some,
        laid_one(source, (r.item->0).item, (r.item->0).after),
        told((r.item->0).item, source, *old(parser)),
        ready(*final(parser)),
        grown(cat_of(*old(parser)), cat_of(*final(parser)), seq![(r.item->0).item]),
    decreases sb(source).len(), 2nat
//@ attrs: #[verifier::rlimit(60)]
//@ nolits
//@ opts
//@ start:
    hide(part); hide(wf); hide(follows); hide(whole); hide(outcome); hide(chosen); hide(trimmed); hide(para_of); hide(para_text); hide(laid_one); hide(added); hide(is_heading); hide(line_of); hide(media); hide(break_line); hide(raw_delim); hide(compound_delim); hide(next_line); hide(closing); hide(blank_line); hide(skip_blank); hide(meta_ok); hide(is_found); hide(macro_attrs); hide(all_placed); hide(cut_from); hide(ends_at); hide(all_inside); hide(before_eol); hide(style_of); hide(bdy); hide(eol); hide(norm_len); hide(line_len); hide(told); hide(undressed); hide(kind_told); hide(read_above);
    let ghost p0 = *old(parser);
    let ghost mut cm = cat_of(p0);
    let ghost s = source;
    proof { lemma_not_blank(sb(source)); lemma_grown_none(cm); }
//@ after let block = Self:
    proof { cm = cat_of(*parser); }
//@ before let block = Self::Simple(simple_block):
    proof { lemma_laid_fast(source, simple_block, after); lemma_told_fast(simple_block, source, first_line.item, p0); }
//@ after let MatchAndWarnings:
    let ghost m0 = metadata;
    proof { reveal(meta_ok); assert(meta_ok(m0)); lemma_part_facts(source, m0.source, 0, sb(source).len() as int); lemma_read_above(m0, s, p0); lemma_para_is(m0); lemma_meta(m0); lemma_kinds(sb(m0.block_start)); lemma_line_valid(m0.block_start); }
//@ after let line = metadata.block_start.take_normalized_line().item:
    proof { lemma_line_is(m0.block_start, line); }
//@ after let is_literal =:
    proof { assert(is_literal == (literal_style(m0) && !raw_delim(line_of(sb(m0.block_start))) && !compound_delim(line_of(sb(m0.block_start))))); }
//@ before let block = Self::CompoundDelimited:
    proof { lemma_laid_compound(m0, s, cdb.item, cdb.after); lemma_told_compound(cdb.item, m0, s, p0); }
//@ before let block = Self::RawDelimited:
    proof { lemma_laid_raw(m0, s, rdb.item, rdb.after); lemma_told_raw(rdb.item, m0, s, p0); }
//@ before let block = Self::Media:
    proof { lemma_line_some(line_of(sb(m0.block_start))); lemma_laid_line(m0, s, Block::Media(media_block.item), media_block.after); lemma_told_media(media_block.item, m0, s, p0); }
//@ before let block = Self::Break:
    proof { lemma_line_some(line_of(sb(m0.block_start))); lemma_laid_line(m0, s, Block::Break(mi_break.item), mi_break.after); lemma_told_break(mi_break.item, m0, s, p0); }
//@ before Self::Section(mi_section_block.item):
    proof { lemma_laid_whole(s, m0.source, Block::Section(mi_section_block.item), mi_section_block.after); lemma_told_section(mi_section_block.item, m0, s, p0); }
//@ before parser.set_attribute_from_body:
    proof { lemma_laid_attr(s, Block::DocumentAttribute(attr.item), attr.after); lemma_told_attr(Block::DocumentAttribute(attr.item), s, first_line.item, p0); }
//@ before image:::
    proof { lemma_line_is(m0.block_start, line.item); if at_pat(sb(line.item), enc('='), 0) || at_pat(sb(line.item), enc('#'), 0) { lemma_marks_line(m0.block_start, line.item); } }
//@ before let simple_block_mi =:
    proof { assert(left_over(m0)); }
//@ before let mut result =:
    let ghost some0 = simple_block_mi is Some;
    proof { lemma_left(m0, metadata, s, p0, some0); }
//@ after let mut result =:
    proof { lemma_laid_para(metadata, s, (result.item->0).item->Simple_0, (result.item->0).after); lemma_told_left((result.item->0).item->Simple_0, m0, metadata, s, p0, some0); }
//@ exit:
    let y = (__vp_r.item->0).item;
    match y {
        Block::Section(s) => {}
        Block::CompoundDelimited(s) => { lemma_grown_own(cat_of(p0), cm, cat_of(*parser), s.blocks@, y); }
        _ => { lemma_grown_own(cat_of(p0), cm, cat_of(*parser), Seq::empty(), y); }
    }
//@end
