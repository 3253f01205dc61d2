// --- blocks of blocks ---------------------------------------------------------------------
spec fn compound_context(d: Seq<u8>) -> Seq<char> { if d.len() == 2 { "open"@ } else if d[0] == 61 { "example"@ } else if d[0] == 42 { "sidebar"@ } else { "quote"@ } }
/// Where the search for the closing line ended: at it, or at the end of the text.
spec fn ended(start: Span, body: Seq<u8>, d: Seq<u8>, o: Option<(Span, Span)>) -> bool {
    let (x, y) = o->0;
    let c = closing(body, d);
    let found = c < body.len();
    o is Some && wf(x) && wf(y) && part(start, x, c, c + if found { d.len() as int } else { 0 }) && part(start, y, c + if found { next_line(body.skip(c)) } else { 0 }, body.len() as int)
}
spec fn min4(n: int) -> int { if n < 4 { n } else { 4 } }
/// What the start of a delimiter's text tells.
proof fn lemma_compound(a: &str)
    ensures ({
        let d = a.spec_bytes();
        let n = d.len() as int;
        &&& compound_delim(d) ==> n > 0 && bdy(d, min4(n))
        &&& forall|x: &str| #[trigger] x.spec_bytes() == d.subrange(0, min4(n)) ==>
            (compound_delim(d) ==> x@ == "===="@ || x@ == "****"@ || x@ == "____"@ || x@ == "--"@)
            && (x@ == "===="@ ==> n >= 4 && d[0] == 61) && (x@ == "****"@ ==> n >= 4 && d[0] == 42) && (x@ == "____"@ ==> n >= 4 && d[0] == 95) && (x@ == "--"@ ==> n == 2)
    })
{
    let d = a.spec_bytes();
    let n = d.len() as int;
    reveal_strlit("===="); reveal_strlit("****"); reveal_strlit("____"); reveal_strlit("--");
    lemma_lit("===="); lemma_lit("****"); lemma_lit("____"); lemma_lit("--");
    assert("====".spec_bytes() =~= seq4('=')); assert("****".spec_bytes() =~= seq4('*')); assert("____".spec_bytes() =~= seq4('_')); assert("--".spec_bytes() =~= seq![45u8, 45u8]);
    lemma_rep4(d, 61); lemma_rep4(d, 42); lemma_rep4(d, 95);
    lemma_views();
    assert forall|x: &str| #[trigger] x.spec_bytes() == d.subrange(0, min4(n)) implies
            (compound_delim(d) ==> x@ == "===="@ || x@ == "****"@ || x@ == "____"@ || x@ == "--"@)
            && (x@ == "===="@ ==> n >= 4 && d[0] == 61) && (x@ == "****"@ ==> n >= 4 && d[0] == 42) && (x@ == "____"@ ==> n >= 4 && d[0] == 95) && (x@ == "--"@ ==> n == 2) by {
        if d.len() == 2 { assert(d.subrange(0, 2) =~= d); }
        assert(x.spec_bytes() == encode_utf8(x@));
        assert(x.spec_bytes().len() == min4(n));
        if n > 0 { assert(x.spec_bytes()[0] == d[0]); }
        if x@ == "===="@ { assert(x.spec_bytes() == "====".spec_bytes()); }
        if x@ == "****"@ { assert(x.spec_bytes() == "****".spec_bytes()); }
        if x@ == "____"@ { assert(x.spec_bytes() == "____".spec_bytes()); }
        if x@ == "--"@ { assert(x.spec_bytes() == "--".spec_bytes()); }
    }
}
/// Blocks of a part of `s`, in a start of `s` that goes beyond it.
proof fn lemma_held(s: Span, t: Span, a: int, z: int, bs: Seq<Block>, after: Span, w: Span, k: int)
    requires part(s, t, a, z), laid_out(t, bs, after), part(s, w, 0, k), z <= k
    ensures in_order(w, bs), in_order(t, bs), all_placed(bs)
{
    lemma_in_order(s, t, a, z, bs);
    reveal(in_order);
    assert forall|i: int| 0 <= i < bs.len() implies sits(w, (#[trigger] bs[i]).v_span()) by {
        let u = bs[i].v_span();
        let b = a + u.offset - t.offset;
        lemma_part_part(s, t, u, a, z, u.offset - t.offset, u.offset - t.offset + sb(u).len());
        lemma_part_within(s, w, k, u, b, b + sb(u).len());
    }
}
//@fn blocks/compound_delimited.rs | CompoundDelimitedBlock::parse
//@ spec:
    requires meta_ok(*metadata), ready(*old(parser))
    ensures
        r is None ==> *final(parser) == *old(parser),
        r is Some ==> ready(*final(parser)) && grown(cat_of(*old(parser)), cat_of(*final(parser)), ((r->0).item->0).item.blocks@),
        (r is Some) == compound_delim(line_of(sb(metadata.block_start))),
        r is Some ==> (r->0).item is Some && ({
            let h = sb(metadata.block_start);
            let d = line_of(h);
            let n = next_line(h);
            let body = h.skip(n);
            let c = closing(body, d);
            let found = c < body.len();
            let z = n + c + if found { next_line(body.skip(c)) } else { 0 };
            let m = ((r->0).item->0).item;
            let after = ((r->0).item->0).after;
            let off0 = metadata.block_start.offset - metadata.source.offset;
            let t = decode_utf8(sb(metadata.source).subrange(0, off0 + n + c + if found { d.len() as int } else { 0 }));
            // The nested blocks are in the lines between the delimiters.
            &&& exists|i: Span<'src>| #[trigger] part(metadata.block_start, i, n, n + c) && wf(i) && in_order(i, m.blocks@)
            &&& all_placed(m.blocks@)
            &&& exists|w: Span<'src>| #[trigger] cut_from(w, m.source) && part(metadata.source, w, 0, off0 + n + c + if found { d.len() as int } else { 0 }) && in_order(w, m.blocks@)
            // A missing closing line is reported at the opening one, before all else.
            &&& !found ==> (r->0).warnings@.len() > 0 && (r->0).warnings@[0].warning is UnterminatedDelimitedBlock && part(metadata.block_start, (r->0).warnings@[0].source, 0, norm_len(h))
            &&& m.context.t() == compound_context(d)
            &&& part(metadata.block_start, after, z, h.len() as int) && wf(after)
            &&& part(metadata.source, m.source, 0, sb(m.source).len() as int) && wf(m.source) && m.source.data@ == t.take(trimmed(t) as int)
            &&& m.title_source == metadata.title_source && opt_str(m.title) == opt_str(metadata.title) && m.anchor == metadata.anchor
            &&& m.anchor_reftext == metadata.anchor_reftext && m.attrlist == metadata.attrlist
        }),
    decreases sb(metadata.source).len(), 1nat
//@ attrs: #[verifier::allow_complex_invariants]
//@ nolits
//@ start:
    hide(part); hide(wf); hide(closing); hide(next_line); hide(norm_len); hide(line_of); hide(rep4); hide(bdy); hide(eol); hide(line_len); hide(spaces_off);
    let ghost bs = metadata.block_start;
    let ghost ms = metadata.source;
    let ghost h = sb(bs);
    let ghost d = line_of(h);
    let ghost n = next_line(h);
    let ghost body = h.skip(n);
    let ghost off0 = bs.offset - ms.offset;
    proof { lemma_lines(bs); lemma_closing(body, d); lemma_meta(*metadata); }
//@ after let delimiter =:
    proof { lemma_part_facts(bs, delimiter.item, 0, norm_len(h)); lemma_part_facts(bs, delimiter.after, n, h.len() as int); lemma_compound(delimiter.item.data); }
//@ before let mut next:
    proof { assert(compound_delim(d)); assert(context@ == compound_context(d)); }
//@ after let mut next:
    let ghost start = delimiter.after;
    proof { assert(sb(start) =~= body); lemma_part_self(start); lemma_part_facts(start, start, 0, body.len() as int); assert(body.skip(0) =~= body); }
//@ loop 0:
    invariant_except_break
        __broke is None,
        wf(next), part(start, next, next.offset - start.offset, body.len() as int),
        0 <= next.offset - start.offset <= body.len(), sb(next) == body.skip(next.offset - start.offset),
        closing(body, d) == next.offset - start.offset + closing(sb(next), d), 0 <= closing(body, d) <= body.len(),
    invariant
        wf(ms), wf(bs), part(ms, bs, off0, sb(ms).len() as int), off0 == bs.offset - ms.offset, bs == metadata.block_start, ms == metadata.source,
        wf(start), part(bs, start, n, h.len() as int), sb(start) == body, start.offset == bs.offset + n, start == delimiter.after,
        h == sb(bs), d == line_of(h), n == next_line(h), body == h.skip(n), 0 <= n <= h.len(), sb(ms).len() == off0 + h.len(), off0 >= 0,
        wf(delimiter.item), part(bs, delimiter.item, 0, norm_len(h)), sb(delimiter.item) == d, d.len() > 0,
        *parser == *old(parser),
    ensures
        ended(start, body, d, __broke),
    decreases sb(next).len()
//@ loop 0 start:
    let ghost k = next.offset - start.offset;
    let ghost q = sb(next);
    proof { lemma_lines(next); lemma_views(); lemma_closing_step(q, d); assert(body.skip(k) =~= q); }
//@ after let line =:
    proof {
        lemma_part_facts(next, line.item, 0, norm_len(q)); lemma_part_facts(next, line.after, next_line(q), q.len() as int);
        lemma_part_part(start, next, line.after, k, body.len() as int, next_line(q), q.len() as int);
        lemma_part_facts(start, line.after, k + next_line(q), body.len() as int);
        assert(sb(line.after) =~= body.skip(k + next_line(q)));
        assert(sb(line.after) =~= q.skip(next_line(q)));
        assert((line.item.data@ == delimiter.item.data@) <==> line_of(q) == d);
        lemma_part_part(start, next, line.item, k, body.len() as int, 0, norm_len(q));
    }
//@ before let inside_delimiters:
    let ghost c = closing(body, d);
    let ghost cl = if c < body.len() { d.len() as int } else { 0 };
    let ghost ek = off0 + n + c + cl;
    proof { lemma_closing(body, d);
        lemma_part_facts(start, closing_delimiter, c, c + cl);
        lemma_part_facts(start, after, after.offset - start.offset, body.len() as int);
        lemma_part_part(bs, start, after, n, h.len() as int, after.offset - start.offset, body.len() as int);
        lemma_part_part(bs, start, closing_delimiter, n, h.len() as int, c, c + cl);
        lemma_part_part(ms, bs, closing_delimiter, off0, sb(ms).len() as int, n + c, n + c + cl);
        assert forall|e: Span, a: int, z: int| #[trigger] part(closing_delimiter, e, a, z) && a == cl && z == cl implies part(ms, e, ek, ek) by { lemma_part_part(ms, closing_delimiter, e, off0 + n + c, ek, cl, cl); }
        assert forall|e: Span| #[trigger] part(ms, e, ek, ek) implies bdy(sb(ms), e.offset - ms.offset) && e.offset - ms.offset == ek by { lemma_trimmed_at(ms, e, ek); }
        assert forall|e: Span, t: Span, u: Span, m: int, l: int| #[trigger] part(ms, e, ek, ek) && #[trigger] part(ms, t, 0, m) && #[trigger] part(t, u, 0, l) && m == ek && l == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int)
            implies part(ms, u, 0, sb(u).len() as int) && u.data@ == ({ let w = decode_utf8(sb(ms).subrange(0, ek)); w.take(trimmed(w) as int) }) by { lemma_trimmed_at(ms, e, ek); }
    }
//@ after let inside_delimiters:
    proof { lemma_part_facts(start, inside_delimiters, 0, c); lemma_part_part(bs, start, inside_delimiters, n, h.len() as int, 0, c); lemma_part_part(ms, bs, inside_delimiters, off0, sb(ms).len() as int, n, n + c); }
//@ after let source =:
    let ghost w = source;
    proof {
        assert(part(ms, w, 0, ek)); assert(wf(w));
        lemma_held(ms, inside_delimiters, off0 + n, off0 + n + c, blocks.item@, blocks.after, w, ek);
        assert forall|u: Span, l: int| #[trigger] part(w, u, 0, l) && l == sb(u).len() && u.data@ == w.data@.take(trimmed(w.data@) as int) implies cut_from(w, u) by {}
    }
//@end

