// --- C19: delimited blocks --------------------------------------------------------------
/// Where in `b` the first line that is `d` starts, or the end of `b`.
spec fn closing(b: Seq<u8>, d: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 || line_of(b) == d { 0 } else if 0 < next_line(b) <= b.len() { next_line(b) + closing(b.skip(next_line(b)), d) } else { b.len() as int }
}
proof fn lemma_closing(b: Seq<u8>, d: Seq<u8>)
    ensures 0 <= closing(b, d) <= b.len(), closing(b, d) < b.len() ==> line_of(b.skip(closing(b, d))) == d
    decreases b.len()
{
    lemma_eol(b);
    assert(b.skip(0) =~= b);
    if b.len() > 0 && line_of(b) != d && 0 < next_line(b) <= b.len() {
        let n = next_line(b);
        lemma_closing(b.skip(n), d);
        assert(b.skip(n).skip(closing(b.skip(n), d)) =~= b.skip(closing(b, d)));
    }
}
/// Of the lines before that, none is `d`: whichever line starts at `i` (after a line feed, or at the start).
proof fn lemma_closing_first(b: Seq<u8>, d: Seq<u8>, i: int)
    requires 0 <= i < closing(b, d), i == 0 || b[i - 1] == 10
    ensures line_of(b.skip(i)) != d
    decreases b.len()
{
    lemma_eol(b); lemma_closing(b, d);
    assert(b.skip(0) =~= b);
    let n = next_line(b);
    if i > 0 {
        assert(i >= n) by { if i < n { assert(b[i - 1] == 10); } }
        assert(b.skip(n).skip(i - n) =~= b.skip(i));
        if i > n { assert(b.skip(n)[i - n - 1] == b[i - 1]); }
        lemma_closing_first(b.skip(n), d, i - n);
    }
}
/// The length of `b` up to `n`, without a line end there.
spec fn before_eol(b: Seq<u8>, n: int) -> int { if n >= 2 && b[n - 2] == 13 && b[n - 1] == 10 { n - 2 } else if n >= 1 && b[n - 1] == 10 { n - 1 } else { n } }

spec fn raw_model(c: u8) -> ContentModel { if c == 45 || c == 46 { ContentModel::Verbatim } else { ContentModel::Raw } }
spec fn raw_context(c: u8) -> Seq<char> { if c == 47 { "comment"@ } else if c == 45 { "listing"@ } else if c == 46 { "literal"@ } else { "pass"@ } }
spec fn raw_group(c: u8) -> Seq<Step> { if c == 45 || c == 46 { seq![Step::SpecialCharacters] } else { Seq::empty() } }
/// Cutting `s` where `x` starts, then taking off a line end.
proof fn lemma_cut_at(s: Span, x: Span, k: int)
    requires wf(s), part(s, x, k, sb(s).len() as int)
    ensures
        bdy(sb(s), x.offset - s.offset), x.offset - s.offset == k, 0 <= k <= sb(s).len(),
        forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == before_eol(sb(t), sb(t).len() as int) ==> part(s, u, 0, before_eol(sb(s), k)),
        forall|t: Span, m: int| #[trigger] part(s, t, 0, m) && m == k ==> sb(t).len() == k && sb(t) == sb(s).subrange(0, k),
{
    assert forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == before_eol(sb(t), sb(t).len() as int) implies part(s, u, 0, before_eol(sb(s), k)) by {
        lemma_part_part(s, t, u, 0, k, 0, l);
    }
}
proof fn lemma_closing_step(b: Seq<u8>, d: Seq<u8>)
    ensures b.len() == 0 ==> closing(b, d) == 0, b.len() > 0 ==> closing(b, d) == if line_of(b) == d { 0 } else { next_line(b) + closing(b.skip(next_line(b)), d) }
{ lemma_eol(b); }
proof fn lemma_raw(d: Seq<u8>)
    ensures
        raw_delim(d) ==> d.len() >= 4 && (d[0] == 47 || d[0] == 45 || d[0] == 46 || d[0] == 43) && d.subrange(0, 4) == seq![d[0], d[0], d[0], d[0]],
        d.len() >= 4 ==> d.subrange(0, 4)[0] == d[0],
        forall|c: u8| !#[trigger] raw_group(c).contains(Step::Callouts),
{ lemma_rep4(d, 47); lemma_rep4(d, 45); lemma_rep4(d, 46); lemma_rep4(d, 43); }
//@fn blocks/raw_delimited.rs | RawDelimitedBlock::parse
//@ spec:
    requires meta_ok(*metadata)
    ensures
        *final(parser) == *old(parser),
        (r is Some) == raw_delim(line_of(sb(metadata.block_start))),
        r is Some ==> (r->0).item is Some && ({
            let h = sb(metadata.block_start);
            let d = line_of(h);
            let n = next_line(h);
            let body = h.skip(n);
            let c = closing(body, d);
            // Where what follows the block starts.
            let z = n + c + if c < body.len() { next_line(body.skip(c)) } else { 0 };
            let m = ((r->0).item->0).item;
            let after = ((r->0).item->0).after;
            let off0 = metadata.block_start.offset - metadata.source.offset;
            // The content is the lines between the delimiters.
            &&& part(metadata.block_start, m.content.original, n, n + before_eol(body, c))
            &&& wf(m.content.original)
            &&& text(m.content) == outcome(m.substitution_group, m.content.original.data@, *old(parser), metadata.attrlist)
            &&& steps_of(m.substitution_group) == chosen(raw_group(d[0]), metadata.attrlist)
            &&& m.content_model == raw_model(d[0])
            &&& m.context.t() == raw_context(d[0])
            &&& part(metadata.block_start, after, z, h.len() as int) && wf(after)
            &&& part(metadata.source, m.source, 0, before_eol(sb(metadata.source), off0 + z)) && wf(m.source)
            &&& m.title_source == metadata.title_source && opt_str(m.title) == opt_str(metadata.title) && m.anchor == metadata.anchor
            &&& m.anchor_reftext == metadata.anchor_reftext && m.attrlist == metadata.attrlist
            // A missing closing line is reported at the opening one, and nothing else is.
            &&& (r->0).warnings@.len() == if c < body.len() { 0int } else { 1 }
            &&& c == body.len() ==> (r->0).warnings@[0].warning is UnterminatedDelimitedBlock && part(metadata.block_start, (r->0).warnings@[0].source, 0, norm_len(h))
        }),
//@ nolits
//@ start:
    hide(part); hide(wf); hide(closing); hide(next_line); hide(norm_len); hide(line_of); hide(outcome); hide(chosen); hide(rep4); hide(bdy); hide(eol); hide(line_len); hide(spaces_off);
    let ghost bs = metadata.block_start;
    let ghost ms = metadata.source;
    let ghost h = sb(bs);
    let ghost d = line_of(h);
    let ghost n = next_line(h);
    let ghost body = h.skip(n);
    let ghost off0 = bs.offset - ms.offset;
    proof { lemma_lines(bs); lemma_closing(body, d); lemma_raw(d); lemma_meta(*metadata); }
//@ after let delimiter =:
    proof { lemma_part_facts(bs, delimiter.item, 0, norm_len(h)); lemma_part_facts(bs, delimiter.after, n, h.len() as int); }
//@ before let content_start:
    proof { assert(raw_delim(d)); assert(steps_of(substitution_group) =~= raw_group(d[0])); assert(content_model == raw_model(d[0])); assert(context@ == raw_context(d[0])); }
//@ before let mut next:
    proof { assert(sb(content_start) =~= body); lemma_part_self(content_start); lemma_part_facts(content_start, content_start, 0, body.len() as int); assert(body.skip(0) =~= body); }
//@ loop 0:
    invariant
        wf(ms), wf(bs), part(ms, bs, off0, sb(ms).len() as int), off0 == bs.offset - ms.offset, bs == metadata.block_start, ms == metadata.source,
        wf(next), wf(content_start), part(content_start, next, next.offset - content_start.offset, body.len() as int),
        part(bs, content_start, n, h.len() as int), sb(content_start) == body, content_start.offset == bs.offset + n,
        h == sb(bs), d == line_of(h), n == next_line(h), body == h.skip(n), 0 <= n <= h.len(), sb(ms).len() == off0 + h.len(), off0 >= 0,
        wf(delimiter.item), part(bs, delimiter.item, 0, norm_len(h)), sb(delimiter.item) == d,
        0 <= next.offset - content_start.offset <= body.len(), sb(next) == body.skip(next.offset - content_start.offset),
        closing(body, d) == next.offset - content_start.offset + closing(sb(next), d), 0 <= closing(body, d) <= body.len(),
        *parser == *old(parser),
        steps_of(substitution_group) == raw_group(d[0]), content_model == raw_model(d[0]), context@ == raw_context(d[0]),
        raw_delim(d), d.len() >= 4,
    decreases sb(next).len()
//@ loop 0 start:
    let ghost k = next.offset - content_start.offset;
    let ghost q = sb(next);
    proof { lemma_lines(next); lemma_views(); lemma_closing_step(q, d); lemma_cut_at(content_start, next, k); assert(body.skip(k) =~= q);  }
//@ after let line =:
    proof {
        lemma_part_facts(next, line.item, 0, norm_len(q)); lemma_part_facts(next, line.after, next_line(q), q.len() as int);
        lemma_part_part(content_start, next, line.after, k, body.len() as int, next_line(q), q.len() as int);
        lemma_part_facts(content_start, line.after, k + next_line(q), body.len() as int);
        lemma_part_part(bs, content_start, line.after, n, h.len() as int, k + next_line(q), body.len() as int);
        lemma_part_part(ms, bs, line.after, off0, sb(ms).len() as int, n + k + next_line(q), h.len() as int);
        lemma_part_facts(ms, line.after, off0 + n + k + next_line(q), sb(ms).len() as int);
        lemma_cut_at(ms, line.after, off0 + n + k + next_line(q));
        assert(sb(line.after) =~= body.skip(k + next_line(q)));
        assert(sb(line.after) =~= q.skip(next_line(q)));
        assert((line.item.data@ == delimiter.item.data@) <==> line_of(q) == d);
        lemma_chosen(raw_group(d[0]), metadata.attrlist);
    }
//@ after let mut content:
    proof {
        assert(part(content_start, content.original, 0, before_eol(body, next.offset - content_start.offset)));
        lemma_part_part(bs, content_start, content.original, n, h.len() as int, 0, before_eol(body, next.offset - content_start.offset));
    }
//@ before let content =:
    let ghost k = next.offset - content_start.offset;
    proof {
        lemma_closing_step(sb(next), d);
        lemma_cut_at(content_start, next, k);
        lemma_part_part(bs, content_start, next, n, h.len() as int, k, body.len() as int);
        lemma_part_part(ms, bs, next, off0, sb(ms).len() as int, n + k, h.len() as int);
        lemma_cut_at(ms, next, off0 + n + k);
        lemma_chosen(raw_group(d[0]), metadata.attrlist);
    }
//@end

