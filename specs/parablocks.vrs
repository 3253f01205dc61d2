// --- breaks, media and paragraphs ------------------------------------------------------------
impl<'src> Span<'src> {
    /// `str::trim`, which spans reach through `Deref`.
    fn cp_trim(&self) -> (r: &str) ensures r@ == trim(self.data@) { self.data.cp_trim() }
}
/// A text that doesn't start with white space loses only what is at its end.
proof fn lemma_trim_end(s: Span)
    requires sb(s).len() > 0, sb(s)[0] < 128, !is_ws(sb(s)[0] as char)
    ensures
        forall|x: &str| #[trigger] x@ == trim(s.data@) ==> x.spec_bytes().len() <= sb(s).len() && bdy(sb(s), x.spec_bytes().len() as int) && x@ == s.data@.take(trimmed(s.data@) as int)
            && x.spec_bytes().len() == off(s.data@, trimmed(s.data@) as int),
        forall|u: Span, n: int| #[trigger] part(s, u, 0, n) && n == off(s.data@, trimmed(s.data@) as int) ==> u.data@ == s.data@.take(trimmed(s.data@) as int),
{
    let t = s.data@;
    if t.len() == 0 { lemma_off(t, 0); assert(encode_utf8(t) =~= Seq::empty()); }
    lemma_first_byte(t);
    lemma_trimmed_len(t);
    let k = trimmed(t) as int;
    lemma_off(t, k);
    assert(t[0] == sb(s)[0] as char);
    lemma_trimmed_some(t);
    assert(t.take(k)[0] == t[0]);
    assert(lead_ws(t.take(k)) == 0);
    assert(trim(t) =~= t.take(k));
    assert forall|x: &str| #[trigger] x@ == trim(t) implies x.spec_bytes().len() <= sb(s).len() && bdy(sb(s), x.spec_bytes().len() as int) && x.spec_bytes().len() == off(t, k) by { assert(x.spec_bytes() == encode_utf8(x@)); }
    assert forall|u: Span, n: int| #[trigger] part(s, u, 0, n) && n == off(t, k) implies u.data@ == t.take(k) by { lemma_view(u.data, t.take(k)); }
}
proof fn lemma_trimmed_len(t: Seq<char>) ensures trimmed(t) <= t.len() decreases t.len() { if t.len() > 0 && is_ws(t.last()) { lemma_trimmed_len(t.drop_last()); } }
proof fn lemma_trimmed_some(t: Seq<char>)
    requires t.len() > 0, !is_ws(t[0])
    ensures trimmed(t) > 0
    decreases t.len()
{ if is_ws(t.last()) { assert(t.drop_last()[0] == t[0]); lemma_trimmed_some(t.drop_last()); } }

//@type blocks/break.rs | BreakType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/break.rs | Break
//@type blocks/media.rs | MediaType derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/media.rs | MediaBlock
spec fn break_line(l: Seq<u8>) -> Option<BreakType> {
    if l == "'''".spec_bytes() || l == "---".spec_bytes() || l == "- - -".spec_bytes() || l == "***".spec_bytes() || l == "* * *".spec_bytes() { Some(BreakType::Thematic) }
    else if l == "<<<".spec_bytes() { Some(BreakType::Page) } else { None }
}
/// The span of a block that ends at `z` in the block's own text: all of it, from its metadata on, without the white space at its end.
spec fn whole(m: BlockMetadata, s: Span, z: int) -> bool {
    let t = decode_utf8(sb(m.source).take(m.block_start.offset - m.source.offset + z));
    wf(s) && part(m.source, s, 0, sb(s).len() as int) && s.data@ == t.take(trimmed(t) as int)
}
/// What follows a block that ends at `z`: the first line after it that isn't blank.
spec fn follows(s: Span, after: Span, z: int) -> bool { wf(after) && part(s, after, z + skip_blank(sb(s).skip(z)), sb(s).len() as int) }
proof fn lemma_whole(m: BlockMetadata, e: Span, z: int)
    requires meta_ok(m), part(m.block_start, e, z, sb(m.block_start).len() as int), z > 0, sb(m.block_start).len() > 0, sb(m.block_start)[0] < 128, !is_ws(sb(m.block_start)[0] as char)
    ensures
        m.source.offset < e.offset, e.offset - m.source.offset == m.block_start.offset - m.source.offset + z, e.offset <= m.source.offset + sb(m.source).len(), bdy(sb(m.source), e.offset - m.source.offset),
        forall|t: Span, k: int| #[trigger] part(m.source, t, 0, k) && k == e.offset - m.source.offset ==> sb(t).len() > 0 && sb(t)[0] < 128 && !is_ws(sb(t)[0] as char)
            && (forall|u: Span, n: int| #[trigger] part(t, u, 0, n) && wf(u) && u.data@ == t.data@.take(trimmed(t.data@) as int) ==> whole(m, u, z)),
{
    reveal(headed);
    let o = m.block_start.offset - m.source.offset;
    lemma_part_part(m.source, m.block_start, e, o, sb(m.source).len() as int, z, sb(m.block_start).len() as int);
    assert forall|t: Span, k: int| #[trigger] part(m.source, t, 0, k) && k == e.offset - m.source.offset implies sb(t).len() > 0 && sb(t)[0] < 128 && !is_ws(sb(t)[0] as char)
            && (forall|u: Span, n: int| #[trigger] part(t, u, 0, n) && wf(u) && u.data@ == t.data@.take(trimmed(t.data@) as int) ==> whole(m, u, z)) by {
        assert(sb(t)[0] == sb(m.source)[0]);
        if o == 0 { assert(sb(m.block_start)[0] == sb(m.source)[0]); }
        assert forall|u: Span, n: int| #[trigger] part(t, u, 0, n) && wf(u) && u.data@ == t.data@.take(trimmed(t.data@) as int) implies whole(m, u, z) by {
            lemma_part_part(m.source, t, u, 0, o + z, 0, n);
            assert(sb(t) =~= sb(m.source).take(o + z));
            encode_utf8_decode_utf8(t.data@);
        }
    }
}
proof fn lemma_follows(s: Span, e: Span, z: int)
    requires part(s, e, z, sb(s).len() as int)
    ensures forall|a: Span, n: int| #[trigger] part(e, a, n, sb(e).len() as int) && n == skip_blank(sb(e)) && wf(a) ==> follows(s, a, z)
{
    assert(sb(s).skip(z) =~= sb(e));
    assert forall|a: Span, n: int| #[trigger] part(e, a, n, sb(e).len() as int) && n == skip_blank(sb(e)) && wf(a) implies follows(s, a, z) by { lemma_part_part(s, e, a, z, sb(s).len() as int, n, sb(e).len() as int); }
}
proof fn lemma_breaks()
    ensures forall|l: Seq<u8>| #[trigger] break_line(l) is Some ==> l.len() > 0 && (l[0] == 39 || l[0] == 45 || l[0] == 42 || l[0] == 60)
{
    reveal_strlit("'''"); reveal_strlit("---"); reveal_strlit("- - -"); reveal_strlit("***"); reveal_strlit("* * *"); reveal_strlit("<<<");
    lemma_lit("'''"); lemma_lit("---"); lemma_lit("- - -"); lemma_lit("***"); lemma_lit("* * *"); lemma_lit("<<<");
}
/// Texts are equal exactly if their bytes are.
proof fn lemma_eq_bytes(a: &str)
    ensures forall|b: &str| #[trigger] b@ == a@ <==> b.spec_bytes() == a.spec_bytes()
{ assert forall|b: &str| #[trigger] b@ == a@ <==> b.spec_bytes() == a.spec_bytes() by { if b.spec_bytes() == a.spec_bytes() { lemma_view(a, b@); } } }
//@fn blocks/break.rs | Break::parse
//@ spec:
    requires meta_ok(*metadata)
    ensures
        *final(_parser) == *old(_parser),
        (r is Some) == (break_line(line_of(sb(metadata.block_start))) is Some),
        r is Some ==> ({
            let h = sb(metadata.block_start);
            let m = (r->0).item;
            &&& m.type_ == break_line(line_of(h))->0
            &&& follows(metadata.block_start, (r->0).after, next_line(h))
            &&& whole(*metadata, m.source, next_line(h))
            &&& m.title_source == metadata.title_source && opt_str(m.title) == opt_str(metadata.title) && m.anchor == metadata.anchor
            &&& m.anchor_reftext == metadata.anchor_reftext && m.attrlist == metadata.attrlist
        }),
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(bdy); hide(eol); hide(line_len); hide(spaces_off); hide(whole); hide(follows); hide(trimmed); hide(trim); hide(skip_blank); hide(off);
    let ghost bs = metadata.block_start;
    let ghost h = sb(bs);
    proof { lemma_lines(bs); lemma_meta(*metadata); lemma_breaks(); lemma_first2(bs); assert(h.len() > 0 ==> next_line(h) > 0); }
//@ after let line =:
    proof { lemma_part_facts(bs, line.item, 0, norm_len(h)); lemma_part_facts(bs, line.after, next_line(h), h.len() as int); lemma_eq_bytes(line.item.data); }
//@ before trim_remainder:
    proof { assert(break_line(line_of(h)) is Some); lemma_whole(*metadata, line.after, next_line(h)); lemma_follows(bs, line.after, next_line(h)); }
//@ after trim_remainder:
    proof { lemma_part_facts(metadata.source, source, 0, line.after.offset - metadata.source.offset); lemma_trim_end(source); }
//@end

/// What a line of a block macro is.
enum Media { No, Bad(WarningType, int), Yes(MediaType, int, int) }
spec fn named5(t: Seq<char>, n: Seq<char>) -> bool { t.len() >= 5 && t.take(5) == n && !(t.len() > 5 && id2()(t[5])) }
spec fn media_type(t: Seq<char>) -> Option<MediaType> {
    if named5(t, "image"@) { Some(MediaType::Image) } else if named5(t, "video"@) { Some(MediaType::Video) } else if named5(t, "audio"@) { Some(MediaType::Audio) } else { None }
}
spec fn no_bracket() -> spec_fn(char) -> bool { |c: char| c != '[' }
/// `image::target[attributes]`: its target is up to the first bracket; places are in bytes.
spec fn media(t: Seq<char>) -> Media {
    if !(t.len() > 0 && t.last() == ']' && media_type(t) is Some) { Media::No }
    else if !(t.len() >= 7 && t[5] == ':' && t[6] == ':') { Media::Bad(WarningType::MacroMissingDoubleColon, 5) }
    else {
        let g = run_c(t.skip(7), no_bracket());
        if g == 0 { Media::Bad(WarningType::MediaMacroMissingTarget, 7) }
        else if 7 + g == t.len() { Media::Bad(WarningType::MacroMissingAttributeList, off(t, t.len() as int)) }
        else { Media::Yes(media_type(t)->0, off(t, 7 + g), off(t, t.len() as int) - 1) }
    }
}
/// The attributes of a block macro are those of the text in its brackets.
spec fn macro_attrs<'a>(s: Span<'a>, a: int, z: int, l: Attrlist<'a>, w: Seq<Warning<'a>>, p: Parser) -> bool { exists|i: Span<'a>| #[trigger] part(s, i, a, z) && wf(i) && l == inline_attrs_of(i, p) && w == inline_attr_reports(i, p) }
proof fn lemma_names()
    ensures "image"@.len() == 5, "video"@.len() == 5, "audio"@.len() == 5, "image".spec_bytes().len() == 5, "video".spec_bytes().len() == 5, "audio".spec_bytes().len() == 5,
        "image"@ != "video"@, "image"@ != "audio"@, "video"@ != "audio"@,
        forall|j: int| 0 <= j < 5 ==> id2()(#[trigger] "image"@[j]), forall|j: int| 0 <= j < 5 ==> id2()(#[trigger] "video"@[j]), forall|j: int| 0 <= j < 5 ==> id2()(#[trigger] "audio"@[j]),
        id1()("image"@[0]), id1()("video"@[0]), id1()("audio"@[0]),
{
    reveal_strlit("image"); reveal_strlit("video"); reveal_strlit("audio");
    lemma_lit("image"); lemma_lit("video"); lemma_lit("audio");
    assert("image"@ =~= seq!['i', 'm', 'a', 'g', 'e']); assert("video"@ =~= seq!['v', 'i', 'd', 'e', 'o']); assert("audio"@ =~= seq!['a', 'u', 'd', 'i', 'o']);
    assert("image"@[0] == 'i' && "video"@[0] == 'v' && "audio"@[0] == 'a');
}
/// The first word of `t` is `n` exactly if `t` starts with `n` and the word ends there.
proof fn lemma_word5(t: Seq<char>, n: Seq<char>, k: int)
    requires n == "image"@ || n == "video"@ || n == "audio"@, word(t, id1(), id2(), k)
    ensures t.take(k) == n <==> named5(t, n), t.take(k) == n ==> k == 5
{
    lemma_names();
    if named5(t, n) {
        if k < 5 { assert(t.take(5)[k] == t[k]); assert(n[k] == t[k]); assert(id2()(n[k])); assert(!id2()(t[k])); } else if k > 5 { assert(id2()(t[5])); }
    }
}
proof fn lemma_no_word(t: Seq<char>)
    requires !(t.len() > 0 && id1()(t[0]))
    ensures media_type(t) is None
{ lemma_names(); if t.len() >= 5 { assert(t.take(5)[0] == t[0]); } }
proof fn lemma_colons()
    ensures forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "::".spec_bytes(), i) <==> 0 <= i && i + 2 <= b.len() && b[i] == 58 && b[i + 1] == 58, "::".spec_bytes().len() == 2,
        forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "[".spec_bytes(), i) <==> 0 <= i < b.len() && b[i] == 91, "[".spec_bytes().len() == 1,
{
    reveal_strlit("::"); reveal_strlit("["); lemma_lit("::"); lemma_lit("[");
    assert("::"@ =~= seq![':', ':']); assert("["@ =~= seq!['[']);
    assert("::".spec_bytes() =~= seq![58u8, 58u8]); assert("[".spec_bytes() =~= seq![91u8]);
    lemma_pair("::".spec_bytes(), 58);
    assert forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "[".spec_bytes(), i) <==> 0 <= i < b.len() && b[i] == 91 by { if 0 <= i < b.len() { assert(b.subrange(i, i + 1) =~= seq![b[i]]); } }
}
/// The first two characters are colons exactly if the first two bytes are.
proof fn lemma_two(t: Seq<char>)
    ensures ({ let b = encode_utf8(t); b.len() >= 2 && b[0] == 58 && b[1] == 58 <==> t.len() >= 2 && t[0] == ':' && t[1] == ':' }),
        t.len() >= 2 && t[0] == ':' && t[1] == ':' ==> off(t, 2) == 2,
{
    let b = encode_utf8(t);
    if t.len() > 0 {
        lemma_first_byte(t);
        if t[0] == ':' {
            lemma_off(t, 1); lemma_off_next(t, 0); lemma_off(t, 0);
            assert(off(t, 1) == 1);
            assert(encode_utf8(t.skip(1)) =~= b.skip(1));
            if t.len() > 1 { lemma_first_byte(t.skip(1)); assert(t.skip(1)[0] == t[1]); if t[1] == ':' { lemma_off(t, 2); lemma_off_next(t, 1); } }
            else { assert(t.skip(1) =~= Seq::empty()); lemma_off(t, t.len() as int); assert(t.take(1) =~= t); }
        }
    } else { assert(b =~= Seq::empty()) by { lemma_off(t, 0); assert(t.take(0) =~= t); } }
}
proof fn lemma_off_skip(t: Seq<char>, a: int, k: int)
    requires 0 <= a <= t.len(), 0 <= k <= t.len() - a
    ensures off(t, a + k) == off(t, a) + off(t.skip(a), k)
{
    assert(t.take(a + k) =~= t.take(a) + t.skip(a).take(k));
    encode_utf8_concat(t.take(a), t.skip(a).take(k));
}
proof fn lemma_last_byte(t: Seq<char>, c: char)
    requires (c as u32) < 128
    ensures ({ let b = encode_utf8(t); at_pat(b, enc(c), b.len() - 1) <==> t.len() > 0 && t.last() == c }), t.len() > 0 && t.last() == c ==> off(t, t.len() - 1) == encode_utf8(t).len() - 1
{
    let b = encode_utf8(t);
    lemma_ascii_ends();
    lemma_off(t, t.len() as int); assert(t.take(t.len() as int) =~= t);
    if t.len() > 0 {
        lemma_off(t, t.len() - 1);
        if t.last() == c { lemma_off_next(t, t.len() - 1); }
        else if at_pat(b, enc(c), b.len() - 1) {
            let e = t.skip(t.len() - 1);
            let o = off(t, t.len() - 1);
            lemma_first_byte(e);
            lemma_enc_pos(e);
            assert(encode_utf8(e)[encode_utf8(e).len() - 1] == b[b.len() - 1]);
            if (e[0] as u32) < 128 { lemma_off_next(t, t.len() - 1); } else { lemma_scalar_ascii(e, encode_utf8(e).len() - 1); }
        }
    } else { assert(t =~= Seq::empty()); }
}

proof fn lemma_off_lt(t: Seq<char>, a: int, z: int)
    requires 0 <= a < z <= t.len()
    ensures off(t, a) < off(t, z)
{ lemma_off_skip(t, a, z - a); lemma_off(t.skip(a), z - a); }
proof fn lemma_bdy_sub(b: Seq<u8>, a: int, z: int, i: int)
    requires 0 <= a <= z <= b.len(), 0 <= i < z - a, bdy(b, a + i)
    ensures bdy(b.subrange(a, z), i)
{}
/// The name of a block macro starts with a letter.
proof fn lemma_media_first(t: Seq<char>)
    requires media_type(t) is Some
    ensures ({ let b = encode_utf8(t); b.len() > 0 && b[0] < 128 && !is_ws(b[0] as char) })
{ lemma_names(); lemma_first_byte(t); assert(t[0] == t.take(5)[0]); reveal_strlit("image"); reveal_strlit("video"); reveal_strlit("audio"); }
//@fn blocks/media.rs | MediaBlock::parse
//@ spec:
    requires meta_ok(*metadata)
    ensures ({
        let h = sb(metadata.block_start);
        match media(decode_utf8(line_of(h))) {
            Media::No => r.item is None && r.warnings@.len() == 0,
            Media::Bad(w, at) => r.item is None && r.warnings@.len() == 1 && r.warnings@[0].warning == w && part(metadata.block_start, r.warnings@[0].source, at, norm_len(h)),
            Media::Yes(t, a, z) => r.item is Some && ({
                let m = (r.item->0).item;
                &&& m.type_ == t
                &&& part(metadata.block_start, m.target, 7, a) && wf(m.target)
                &&& macro_attrs(metadata.block_start, a + 1, z, m.macro_attrlist, r.warnings@, *old(parser))
                &&& follows(metadata.block_start, (r.item->0).after, next_line(h))
                &&& whole(*metadata, m.source, next_line(h))
                &&& m.title_source == metadata.title_source && opt_str(m.title) == opt_str(metadata.title) && m.anchor == metadata.anchor
                &&& m.anchor_reftext == metadata.anchor_reftext && m.attrlist == metadata.attrlist
            }),
        }
    }), *final(parser) == *old(parser),
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(bdy); hide(eol); hide(line_len); hide(spaces_off); hide(whole); hide(follows); hide(trimmed); hide(trim); hide(skip_blank); hide(off); hide(run_c); hide(at_pat);
    let ghost bs = metadata.block_start;
    let ghost h = sb(bs);
    proof { lemma_lines(bs); lemma_meta(*metadata); lemma_first2(bs); lemma_names(); lemma_colons(); assert(h.len() > 0 ==> next_line(h) > 0); }
//@ after let line =:
    let ghost t = line.item.data@;
    let ghost n = norm_len(h);
    proof { lemma_part_facts(bs, line.item, 0, n); lemma_part_facts(bs, line.after, next_line(h), h.len() as int); lemma_dec(t, line_of(h)); lemma_last_byte(t, ']'); lemma_part_of(bs, line.item, 0, n);
        if !(t.len() > 0 && id1()(t[0])) { lemma_no_word(t); } }
//@ after let Some(name):
    proof {
        let k = choose|k: int| word(t, id1(), id2(), k) && sb(name.item).len() == #[trigger] off(t, k);
        lemma_head(line.item, k); lemma_tail(line.item, k);
        lemma_word5(t, "image"@, k); lemma_word5(t, "video"@, k); lemma_word5(t, "audio"@, k);
        lemma_part_facts(line.item, name.item, 0, sb(name.item).len() as int);
        lemma_part_facts(line.item, name.after, sb(name.item).len() as int, n);
    }
//@ after let type_ =:
    proof { assert(media_type(t) == Some(type_)); assert(off(t, 5) == 5 && sb(name.item).len() == 5); assert(name.after.data@ == t.skip(5)); lemma_two(t.skip(5)); }
//@ after let Some(colons):
    proof {
        assert(t[5] == t.skip(5)[0] && t[6] == t.skip(5)[1]);
        lemma_off_skip(t, 5, 2);
        assert(off(t, 7) == 7);
        lemma_part_of(line.item, name.after, 5, n);
        lemma_part_facts(line.item, colons.after, 7, n);
        lemma_tail(line.item, 7);
        lemma_run_c(t.skip(7), no_bracket());
        assert(mark_c(no_bracket()));
    }
    let ghost g = run_c(t.skip(7), no_bracket());
//@ closure 0 params: c: char
//@ closure 0:
    -> (o: bool) ensures o == (c != '[')
//@ after let target =:
    proof {
        lemma_off_skip(t, 7, g);
        lemma_part_of(line.item, colons.after, 7, n);
        lemma_off(t.skip(7), g);
        lemma_off(t, t.len() as int);
        lemma_off(t, 7 + g);
        assert(g == 0 <==> target.item.data@.len() == 0);
        lemma_tail(line.item, 7 + g);
        if 7 + g < t.len() { lemma_off_next(t, 7 + g); assert(t[7 + g] == t.skip(7)[g]); assert(t[7 + g] == '['); }
    }
//@ before let attrlist:
    proof {
        let a = off(t, 7 + g);
        assert(7 + g < t.len() - 1);
        lemma_off(t, t.len() - 1); lemma_off_lt(t, 7 + g, t.len() - 1);
        lemma_bdy_sub(sb(line.item), a + 1, n, n - 1 - (a + 1));
        lemma_part_of(line.item, target.after, a, n);
        lemma_part_facts(line.item, open_brace.after, a + 1, n);
        lemma_part_of(line.item, open_brace.after, a + 1, n);
    }
//@ before trim_remainder:
    proof { lemma_media_first(t); assert(sb(line.item)[0] == h[0]); lemma_whole(*metadata, line.after, next_line(h)); lemma_follows(bs, line.after, next_line(h)); }
//@ after trim_remainder:
    proof { lemma_part_facts(metadata.source, source, 0, line.after.offset - metadata.source.offset); lemma_trim_end(source); }
//@ before macro_attrlist.item.item:
    assert(part(bs, attrlist, 0 + (off(t, 7 + g) + 1), 0 + (n - 1)));
    assert(macro_attrs(bs, off(t, 7 + g) + 1, off(t, t.len() as int) - 1, macro_attrlist.item.item, macro_attrlist.warnings@, *old(parser)));
//@end

// --- C10, C21: paragraphs ------------------------------------------------------------------
//@type blocks/simple.rs | SimpleBlockStyle derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/simple.rs | SimpleBlock
type Style = SimpleBlockStyle;
spec fn blanks(b: Seq<u8>) -> int decreases b.len() { if b.len() > 0 && (b[0] == 32 || b[0] == 9) { 1 + blanks(b.skip(1)) } else { 0 } }
/// How a paragraph is read: as its style says, else by whether it is indented.
spec fn style_of(b: Seq<u8>, a: Option<Attrlist>) -> Style {
    let d = if blanks(b) == 0 { Style::Paragraph } else { Style::Literal };
    match a { None => d, Some(a) => if style1(a) == Some("normal"@) { Style::Paragraph } else if style1(a) == Some("literal"@) { Style::Literal } else if style1(a) == Some("listing"@) { Style::Listing } else if style1(a) == Some("source"@) { Style::Source } else { d } }
}
spec fn style_group(s: Style) -> Seq<Step> { if s is Literal || s is Source { seq![Step::SpecialCharacters] } else { normal() } }
/// A line that can't continue a paragraph.
spec fn stops(l: Seq<u8>) -> bool { l == seq![43u8] || (l.len() > 0 && l[0] == 91 && l[l.len() - 1] == 93) || raw_delim(l) || compound_delim(l) }
spec fn comment_line(l: Seq<u8>) -> bool { l.len() >= 2 && l[0] == 47 && l[1] == 47 && !(l.len() >= 3 && l[2] == 47) }
/// A line without (at most) `n` columns of indentation, and without white space at its end.
spec fn shown(l: Seq<u8>, n: int) -> Seq<char> {
    let k = blanks(l);
    let m = if k == l.len() { 0 } else if k < n { k } else { n };
    let t = decode_utf8(l.skip(m));
    t.take(trimmed(t) as int)
}
/// The lines of a paragraph, and where it ends: at a blank line, at a line that can't continue it (once it has a line), or at the end of the text.
struct Plain { lines: Seq<Seq<char>>, z: int }
spec fn plain(b: Seq<u8>, para: bool, n: int, some: bool) -> Plain decreases b.len() {
    let l = line_of(b);
    let k = next_line(b);
    if l.len() == 0 || (some && stops(l)) || !(0 < k <= b.len()) { Plain { lines: Seq::empty(), z: 0 } }
    else if para && comment_line(l) { let p = plain(b.skip(k), para, n, some); Plain { lines: p.lines, z: k + p.z } }
    else { let p = plain(b.skip(k), para, n, true); Plain { lines: seq![shown(l, n)] + p.lines, z: k + p.z } }
}
proof fn lemma_plain(b: Seq<u8>, para: bool, n: int, some: bool)
    ensures 0 <= plain(b, para, n, some).z <= b.len()
    decreases b.len()
{
    let k = next_line(b);
    if 0 < k <= b.len() { lemma_plain(b.skip(k), para, n, some); lemma_plain(b.skip(k), para, n, true); }
}
proof fn lemma_plain_step(b: Seq<u8>, para: bool, n: int, some: bool)
    ensures ({
        let l = line_of(b);
        let k = next_line(b);
        let p = plain(b, para, n, some);
        &&& l.len() == 0 || (some && stops(l)) ==> p == Plain { lines: Seq::empty(), z: 0 }
        &&& l.len() > 0 && !(some && stops(l)) && para && comment_line(l) ==> p == Plain { lines: plain(b.skip(k), para, n, some).lines, z: k + plain(b.skip(k), para, n, some).z }
        &&& l.len() > 0 && !(some && stops(l)) && !(para && comment_line(l)) ==> p == Plain { lines: seq![shown(l, n)] + plain(b.skip(k), para, n, true).lines, z: k + plain(b.skip(k), para, n, true).z }
    })
{ lemma_eol(b); lemma_norm(b); }
proof fn lemma_blanks(b: Seq<u8>)
    ensures 0 <= blanks(b) <= b.len(), forall|i: int| 0 <= i < blanks(b) ==> b[i] == 32 || b[i] == 9, blanks(b) < b.len() ==> b[blanks(b)] != 32 && b[blanks(b)] != 9,
        forall|k: int| #[trigger] run(b, sp_tab(), k) ==> k == blanks(b),
    decreases b.len()
{
    if b.len() > 0 && (b[0] == 32 || b[0] == 9) {
        lemma_blanks(b.skip(1));
        assert forall|i: int| 0 <= i < blanks(b) implies b[i] == 32 || b[i] == 9 by { if i > 0 { assert(b.skip(1)[i - 1] == b[i]); } }
    }
    let n = blanks(b);
    assert forall|k: int| #[trigger] run(b, sp_tab(), k) implies k == n by {
        if k < n { assert(sp_tab()(b[k])); } else if k > n { assert(sp_tab()(b[n])); }
    }
}
proof fn lemma_col_blanks(c0: int, b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] == 32 || b[i] == 9
    ensures col_after(c0, b) == c0 + b.len()
    decreases b.len()
{ if b.len() > 0 { lemma_col_blanks(c0, b.drop_last()); } }
/// The column of the first character that isn't blank.
proof fn lemma_indent(s: Span, t: Span)
    requires wf(s), part(s, t, t.offset - s.offset, sb(s).len() as int), run(sb(s), sp_tab(), t.offset - s.offset)
    ensures t.col == s.col + blanks(sb(s)), blanks(sb(s)) >= 0, s.col >= 1
{ lemma_blanks(sb(s)); lemma_col_blanks(s.col as int, sb(s).subrange(0, t.offset - s.offset)); }
spec fn solid(c: char) -> bool { c != ' ' && c != '\t' }
spec fn soft(t: Seq<char>, k: int) -> bool { forall|j: int| 0 <= j < k ==> !solid(#[trigger] t[j]) }
/// The first character of a line that isn't blank.
proof fn lemma_solid(s: Span)
    ensures
        0 <= blanks(sb(s)) <= sb(s).len(), forall|i: int| 0 <= i <= blanks(sb(s)) ==> #[trigger] bdy(sb(s), i),
        forall|k: int| 0 <= k < s.data@.len() && solid(s.data@[k]) && soft(s.data@, k) ==> #[trigger] off(s.data@, k) == blanks(sb(s)),
        forall|k: int| 0 <= k < s.data@.len() && solid(s.data@[k]) && soft(s.data@, k) ==> #[trigger] off(s.data@, k) < sb(s).len(),
        (forall|j: int| 0 <= j < s.data@.len() ==> !solid(#[trigger] s.data@[j])) ==> blanks(sb(s)) == sb(s).len(),
{
    let t = s.data@; let b = sb(s);
    lemma_blanks(b);
    assert forall|i: int| 0 <= i <= blanks(b) implies #[trigger] bdy(b, i) by { if i < blanks(b) { assert(b[i] == 32 || b[i] == 9); } else if i > 0 { encode_utf8_valid_utf8(t); lemma_after_ascii(b, i - 1); } }
    assert forall|k: int| 0 <= k <= t.len() && (k < t.len() ==> solid(t[k])) && soft(t, k) implies #[trigger] off(t, k) == blanks(b) by {
        assert forall|j: int| 0 <= j < k implies (#[trigger] t[j] as u32) < 128 && sp_tab()(t[j] as u8) by { assert(!solid(t[j])); }
        lemma_run(t, sp_tab(), k);
    }
    assert forall|k: int| 0 <= k < t.len() && solid(t[k]) && soft(t, k) implies #[trigger] off(t, k) == blanks(b) && blanks(b) < b.len() by { lemma_off(t, k); }
    if forall|j: int| 0 <= j < t.len() ==> !solid(#[trigger] t[j]) { lemma_off(t, t.len() as int); assert(off(t, t.len() as int) == blanks(b)); }
}
/// How a line is shown, once it is cut and trimmed.
proof fn lemma_shown(l: Span, n: int)
    requires n >= 0
    ensures ({ let k = blanks(sb(l)); let m = if k == sb(l).len() { 0 } else if k < n { k } else { n };
        forall|w: Span, u: Span, x: int| #[trigger] part(l, w, x, sb(l).len() as int) && x == m && #[trigger] u.data@ == w.data@.take(trimmed(w.data@) as int) ==> u.data@ == shown(sb(l), n) })
{
    let k = blanks(sb(l)); let m = if k == sb(l).len() { 0 } else if k < n { k } else { n };
    lemma_blanks(sb(l));
    assert forall|w: Span, u: Span, x: int| #[trigger] part(l, w, x, sb(l).len() as int) && x == m && #[trigger] u.data@ == w.data@.take(trimmed(w.data@) as int) implies u.data@ == shown(sb(l), n) by {
        assert(sb(w) =~= sb(l).skip(m));
        encode_utf8_decode_utf8(w.data@);
    }
}
proof fn lemma_stops(l: Seq<u8>)
    ensures
        raw_delim(l) || compound_delim(l) ==> l.len() > 0 && (l[0] == 47 || l[0] == 45 || l[0] == 46 || l[0] == 43 || l[0] == 61 || l[0] == 42 || l[0] == 95),
{}
proof fn lemma_slashes()
    ensures forall|b: Seq<u8>| #[trigger] at_pat(b, "//".spec_bytes(), 0) <==> b.len() >= 2 && b[0] == 47 && b[1] == 47,
        forall|b: Seq<u8>| #[trigger] at_pat(b, "///".spec_bytes(), 0) <==> b.len() >= 3 && b[0] == 47 && b[1] == 47 && b[2] == 47,
        "+".spec_bytes() == seq![43u8], "\n"@.len() == 1, "\n"@[0] == '\n',
{
    reveal_strlit("//"); reveal_strlit("///"); reveal_strlit("+"); reveal_strlit("\n"); lemma_lit("//"); lemma_lit("///"); lemma_lit("+");
    assert("//"@ =~= seq!['/', '/']); assert("///"@ =~= seq!['/', '/', '/']); assert("+"@ =~= seq!['+']);
    assert("//".spec_bytes() =~= seq![47u8, 47u8]); assert("///".spec_bytes() =~= seq![47u8, 47u8, 47u8]); assert("+".spec_bytes() =~= seq![43u8]);
    lemma_pair("//".spec_bytes(), 47);
    assert forall|b: Seq<u8>| #[trigger] at_pat(b, "///".spec_bytes(), 0) <==> b.len() >= 3 && b[0] == 47 && b[1] == 47 && b[2] == 47 by {
        if b.len() >= 3 { let q = b.subrange(0, 3); assert(q[0] == b[0] && q[1] == b[1] && q[2] == b[2]); if b[0] == 47 && b[1] == 47 && b[2] == 47 { assert(q =~= "///".spec_bytes()); } else { assert("///".spec_bytes()[0] == 47 && "///".spec_bytes()[1] == 47 && "///".spec_bytes()[2] == 47); } }
    }
}
spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
//@fn content/content.rs | Content::original
//@ spec:
    ensures r == self.original
//@end
//@fn content/content.rs | Content::from_filtered
//@ spec:
    ensures r.original == span, text(r) == filtered.rf()
//@end
impl<'a> VpInto<CowStr<'a>> for String { spec fn io(self, r: CowStr<'a>) -> bool { r.t() == self@ } #[verifier::external_body] fn vp_into(self) -> (r: CowStr<'a>) { unimplemented!() } }
//@fn blocks/simple.rs | substitution_group
//@ spec:
    ensures steps_of(r) == chosen(style_group(style), al(attrlist))
//@ start:
    assert(steps_of(SubstitutionGroup::Normal) =~= normal()); assert(steps_of(SubstitutionGroup::Verbatim) =~= seq![Step::SpecialCharacters]);
//@end
/// Cutting `s` where `e` starts, then taking off white space.
proof fn lemma_trimmed_at2(s: Span, e: Span, k: int)
    requires part(s, e, k, sb(s).len() as int)
    ensures
        forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int)
            ==> part(s, u, 0, sb(u).len() as int) && u.data@ == ({ let w = decode_utf8(sb(s).take(k)); w.take(trimmed(w) as int) }) && (sb(u).len() == 0 <==> trimmed(decode_utf8(sb(s).take(k))) == 0),
{
    assert forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int)
            implies part(s, u, 0, sb(u).len() as int) && u.data@ == ({ let w = decode_utf8(sb(s).take(k)); w.take(trimmed(w) as int) }) && (sb(u).len() == 0 <==> trimmed(decode_utf8(sb(s).take(k))) == 0) by {
        lemma_part_part(s, t, u, 0, k, 0, l);
        assert(sb(t) =~= sb(s).take(k));
        encode_utf8_decode_utf8(t.data@);
        lemma_trimmed_len(t.data@);
        lemma_off(u.data@, u.data@.len() as int);
        assert(u.data@.take(u.data@.len() as int) =~= u.data@);
    }
}
//@fn blocks/simple.rs | parse_lines
//@ spec:
    requires wf(source)
    ensures ({
        let b = sb(source);
        let style = style_of(b, *attrlist);
        let p = plain(b, style is Paragraph, source.col - 1 + blanks(b), false);
        let t = decode_utf8(b.take(p.z));
        &&& (r is Some) == (trimmed(t) > 0)
        &&& r is Some ==> ({
            let c = (r->0).item.0;
            &&& (r->0).item.1 == style
            &&& wf(c.original) && part(source, c.original, 0, sb(c.original).len() as int) && c.original.data@ == t.take(trimmed(t) as int)
            &&& exists|g: SubstitutionGroup| steps_of(g) == chosen(style_group(style), *attrlist) && text(c) == #[trigger] outcome(g, join(p.lines, '\n'), *parser, *attrlist)
            &&& follows(source, (r->0).after, p.z)
        })
    })
//@ attrs: #[verifier::allow_complex_invariants]
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(bdy); hide(eol); hide(line_len); hide(spaces_off); hide(follows); hide(trimmed); hide(skip_blank); hide(off); hide(at_pat); hide(outcome); hide(plain); hide(blanks); hide(shown); hide(stops); hide(comment_line); hide(raw_delim); hide(compound_delim); hide(chosen); hide(run); hide(texts); hide(join);
    let ghost b = sb(source);
    let ghost end = b.len() as int;
    proof { lemma_part_self(source); lemma_part_facts(source, source, 0, end); lemma_slashes(); lemma_ascii_ends(); }
//@ after let source_after_whitespace:
    proof { lemma_indent(source, source_after_whitespace); }
//@ before let mut next:
    let ghost para = style is Paragraph;
    let ghost n = strip_indent as int;
    proof { assert(style == style_of(b, *attrlist)); assert(b.skip(0) =~= b); lemma_plain(b, para, n, false); }
    let ghost whole_plain = plain(b, para, n, false);
//@ after let mut filtered_lines:
    proof { reveal(texts); assert(texts(filtered_lines@) =~= Seq::<Seq<char>>::empty()); assert(Seq::<Seq<char>>::empty() + whole_plain.lines =~= whole_plain.lines); }
//@ loop 0:
    invariant
        wf(source), b == sb(source), end == b.len(), wf(next), part(source, next, next.offset - source.offset, end), 0 <= next.offset - source.offset <= end, sb(next) == b.skip(next.offset - source.offset),
        para == (style is Paragraph), n == strip_indent, n >= 0,
        whole_plain.lines == texts(filtered_lines@) + plain(sb(next), para, n, filtered_lines@.len() > 0).lines,
        whole_plain.z == next.offset - source.offset + plain(sb(next), para, n, filtered_lines@.len() > 0).z,
    decreases sb(next).len()
//@ loop 0 start:
    let ghost k = next.offset - source.offset;
    let ghost q = sb(next);
    proof { lemma_lines(next); lemma_plain_step(q, para, n, filtered_lines@.len() > 0); lemma_part_part(source, source, next, 0, end, k, end); }
//@ after let mut line =:
    let ghost l = line_of(q);
    let ghost line0 = line;
    proof {
        lemma_part_facts(next, line, 0, norm_len(q)); lemma_part_facts(next, line_mi.after, next_line(q), q.len() as int);
        lemma_part_part(source, next, line_mi.after, k, end, next_line(q), q.len() as int);
        lemma_part_facts(source, line_mi.after, k + next_line(q), end);
        assert(sb(line_mi.after) =~= q.skip(next_line(q)));
        assert(sb(line) == l);
        lemma_eq_bytes(line.data); lemma_stops(l); lemma_solid(line); lemma_shown(line, n); lemma_part_self(line);
        reveal(stops); reveal(comment_line);
    }
//@ before continue:
    assert(para && comment_line(l));
//@ closure 0 params: c: char
//@ closure 0:
    -> (o: bool) ensures o == solid(c)
//@ after filtered_lines.push:
    proof {
        let f = texts(filtered_lines@);
        reveal(texts);
        assert(filtered_lines@.last()@ == shown(l, n));
        assert(f =~= texts(filtered_lines@.drop_last()).push(shown(l, n)));
        assert(f + plain(sb(next), para, n, true).lines =~= texts(filtered_lines@.drop_last()) + (seq![shown(l, n)] + plain(sb(next), para, n, true).lines));
    }
//@ before trim_remainder:
    proof {
        lemma_part_facts(source, next, next.offset - source.offset, end);
        lemma_plain_step(sb(next), para, n, filtered_lines@.len() > 0);
        reveal(line_of); lemma_norm(sb(next)); lemma_eol(sb(next));
        assert(whole_plain.z == next.offset - source.offset);
        assert(texts(filtered_lines@) + Seq::<Seq<char>>::empty() =~= texts(filtered_lines@));
        assert(!style_group(style).contains(Step::Callouts));
        lemma_chosen(style_group(style), *attrlist);
        lemma_follows(source, next, whole_plain.z);
        lemma_trimmed_at2(source, next, whole_plain.z);
    }
//@end
/// Nothing blank is left behind the blank lines.
proof fn lemma_skip_twice(b: Seq<u8>)
    ensures 0 <= skip_blank(b) <= b.len(), skip_blank(b.skip(skip_blank(b))) == 0
    decreases b.len()
{
    if b.len() == 0 || !blank_line(b) || next_line(b) <= 0 || next_line(b) > b.len() { assert(b.skip(0) =~= b); }
    else { let c = b.skip(next_line(b)); lemma_skip_twice(c); assert(b.skip(skip_blank(b)) =~= c.skip(skip_blank(c))); }
}
/// Cutting the whole block where the text after `a` starts.
proof fn lemma_whole_at(m: BlockMetadata, a: Span, z: int)
    requires meta_ok(m), follows(m.block_start, a, z), 0 <= z <= sb(m.block_start).len()
    ensures ({ let y = z + skip_blank(sb(m.block_start).skip(z));
        &&& m.source.offset <= a.offset && a.offset - m.source.offset == m.block_start.offset - m.source.offset + y && a.offset <= m.source.offset + sb(m.source).len() && bdy(sb(m.source), a.offset - m.source.offset)
        &&& part(m.source, a, a.offset - m.source.offset, sb(m.source).len() as int)
        &&& skip_blank(sb(a)) == 0
        &&& forall|t: Span, k: int, u: Span, n: int| #[trigger] part(m.source, t, 0, k) && k == a.offset - m.source.offset && #[trigger] part(t, u, 0, n) && wf(u) && n == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int) ==> whole(m, u, y)
        &&& forall|d: Span, j: int| #[trigger] part(a, d, j, sb(a).len() as int) && j == 0 && wf(d) ==> follows(m.block_start, d, z)
    })
{
    let b = sb(m.block_start);
    let o = m.block_start.offset - m.source.offset;
    let y = z + skip_blank(b.skip(z));
    lemma_skip_twice(b.skip(z));
    lemma_part_part(m.source, m.block_start, a, o, sb(m.source).len() as int, y, b.len() as int);
    assert(sb(a) =~= b.skip(z).skip(skip_blank(b.skip(z))));
    assert forall|t: Span, k: int, u: Span, n: int| #[trigger] part(m.source, t, 0, k) && k == a.offset - m.source.offset && #[trigger] part(t, u, 0, n) && wf(u) && n == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int) implies whole(m, u, y) by {
        lemma_part_part(m.source, t, u, 0, o + y, 0, n);
        assert(sb(t) =~= sb(m.source).take(o + y));
        encode_utf8_decode_utf8(t.data@);
    }
    assert forall|d: Span, j: int| #[trigger] part(a, d, j, sb(a).len() as int) && j == 0 && wf(d) implies follows(m.block_start, d, z) by { lemma_part_part(m.block_start, a, d, y, b.len() as int, 0, sb(a).len() as int); }
}
spec fn para_of(b: Seq<u8>, col: int, a: Option<Attrlist>) -> Plain { plain(b, style_of(b, a) is Paragraph, col - 1 + blanks(b), false) }
/// The text a paragraph is shown as: its lines, with the substitutions its style and attributes choose.
spec fn para_text(c: Content, b: Seq<u8>, col: int, a: Option<Attrlist>, p: Parser) -> bool {
    exists|g: SubstitutionGroup| steps_of(g) == chosen(style_group(style_of(b, a)), a) && text(c) == #[trigger] outcome(g, join(para_of(b, col, a).lines, '\n'), p, a)
}
//@fn blocks/simple.rs | SimpleBlock::parse
//@ spec:
    requires meta_ok(*metadata)
    ensures *final(parser) == *old(parser), ({
        let b = sb(metadata.block_start);
        let col = metadata.block_start.col as int;
        let p = para_of(b, col, metadata.attrlist);
        let t = decode_utf8(b.take(p.z));
        &&& (r is Some) == (trimmed(t) > 0)
        &&& r is Some ==> ({
            let i = (r->0).item;
            &&& i.style == style_of(b, metadata.attrlist) && i.title_source == metadata.title_source && opt_str(i.title) == opt_str(metadata.title) && i.anchor == metadata.anchor && i.anchor_reftext == metadata.anchor_reftext && i.attrlist == metadata.attrlist
            &&& para_text(i.content, b, col, metadata.attrlist, *old(parser))
            &&& follows(metadata.block_start, (r->0).after, p.z)
            &&& whole(*metadata, i.source, p.z + skip_blank(b.skip(p.z)))
        })
    })
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(bdy); hide(eol); hide(line_len); hide(whole); hide(follows); hide(trimmed); hide(skip_blank); hide(outcome); hide(plain); hide(blanks); hide(chosen); hide(join); hide(style_of); hide(style_group);
    let ghost b = sb(metadata.block_start);
    let ghost pp = para_of(b, metadata.block_start.col as int, metadata.attrlist);
    proof { reveal(follows); lemma_plain(b, style_of(b, metadata.attrlist) is Paragraph, metadata.block_start.col - 1 + blanks(b), false); }
//@ before Some(MatchedItem {:
    proof { lemma_whole_at(*metadata, after, pp.z); }
//@end
//@fn blocks/simple.rs | SimpleBlock::parse_fast
//@ spec:
    requires wf(source)
    ensures ({
        let b = sb(source);
        let col = source.col as int;
        let p = para_of(b, col, None);
        let t = decode_utf8(b.take(p.z));
        &&& (r is Some) == (trimmed(t) > 0)
        &&& r is Some ==> ({
            let i = (r->0).item;
            &&& i.style == style_of(b, None) && i.title_source is None && i.title is None && i.anchor is None && i.anchor_reftext is None && i.attrlist is None
            &&& para_text(i.content, b, col, None, *parser)
            &&& follows(source, (r->0).after, p.z)
            &&& wf(i.source) && part(source, i.source, 0, sb(i.source).len() as int) && i.source.data@ == t.take(trimmed(t) as int)
        })
    })
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(bdy); hide(eol); hide(line_len); hide(follows); hide(trimmed); hide(skip_blank); hide(outcome); hide(plain); hide(blanks); hide(chosen); hide(join); hide(style_of); hide(style_group);
    let ghost src0 = source;
    let ghost b = sb(source);
    let ghost pp = para_of(b, source.col as int, None);
    proof { reveal(follows); lemma_plain(b, style_of(b, None) is Paragraph, source.col - 1 + blanks(b), false); lemma_skip_twice(b.skip(pp.z)); }
//@ before let source =:
    proof {
        lemma_skip_twice(b.skip(pp.z)); 
        let e = after; let y = pp.z + skip_blank(b.skip(pp.z));
        lemma_part_facts(src0, e, y, b.len() as int);
        assert(sb(e) =~= b.skip(pp.z).skip(skip_blank(b.skip(pp.z))));
        assert forall|d: Span, j: int| #[trigger] part(e, d, j, sb(e).len() as int) && j == 0 && wf(d) implies follows(src0, d, pp.z) by { lemma_part_part(src0, e, d, y, b.len() as int, 0, sb(e).len() as int); }
    }
//@end
//@fn blocks/simple.rs | SimpleBlock::content
//@ spec:
    ensures *r == self.content
//@end
//@fn blocks/simple.rs | SimpleBlock::style
//@ spec:
    ensures r == self.style
//@end
