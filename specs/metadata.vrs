// --- C21: the lines above a block -------------------------------------------------------
impl VpCharsOf for Span<'_> { spec fn chs(&self) -> Seq<char> { self.data@ } fn vp_chars(&self) -> (r: VpCh) { self.data.vp_chars() } }
impl VpCh {
    /// The next character; `s()` is what is left.
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures (r is Some) == (old(self).s().len() > 0), r is Some ==> r->0 == old(self).s()[0] && final(self).s() == old(self).s().skip(1)
    { unimplemented!() }
}
/// The derived comparison of spans.
impl vstd::std_specs::cmp::PartialEqSpecImpl for Span<'_> {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &Self) -> bool { self.data@ == o.data@ && self.line == o.line && self.col == o.col && self.offset == o.offset }
}
impl PartialEq for Span<'_> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
/// Unicode's letters, and its letters and digits.
pub uninterp spec fn letter(c: char) -> bool;
pub uninterp spec fn alnum(c: char) -> bool;
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == letter(c);
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == alnum(c);
/// (The unit `strs` proves this of `CowStr`.)
impl<'a> CowStr<'a> { #[verifier::external_body] fn into_string(self) -> (r: String) ensures r@ == self.t() { unimplemented!() } }

/// The names that an anchor can have.
spec fn name_char(c: char) -> bool { c == ':' || c == '_' || c == '.' || c == '-' || c == '\u{b7}' || (c != '\u{37e}' && alnum(c)) }
spec fn xml_name(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == ':' || s[0] == '_' || (s[0] != '\u{37e}' && letter(s[0]))) && forall|i: int| 1 <= i < s.len() ==> name_char(#[trigger] s[i]) }
//@fn span/primitives.rs | Span::is_xml_name
//@ spec:
    ensures r == xml_name(self.data@)
//@ start:
    let ghost t = self.data@;
    proof { if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.skip(1).len() implies #[trigger] t.skip(1)[i] == t[i + 1] by {}
        assert forall|i: int| 1 <= i < t.len() implies #[trigger] t[i] == t.skip(1)[i - 1] by {} } }
//@ closure 0 params: c: char
//@ closure 0:
    -> (o: bool) ensures o == name_char(c)
//@end

/// A part of a text.
struct Cut { a: int, z: int }
/// Where the first comma of `b` is, or its end.
spec fn comma(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 || b[0] == 44 { 0 } else { 1 + comma(b.skip(1)) } }
spec fn opens(l: Seq<u8>, k: int) -> bool { l.len() >= 2 * k && l[0] == 91 && l[l.len() - 1] == 93 && (k == 2 ==> l[1] == 91 && l[l.len() - 2] == 93) }
/// `.Title`
spec fn title_line(l: Seq<u8>) -> bool { l.len() > 0 && l[0] == 46 && (l.len() > 1 ==> l[1] != 46 && l[1] != 32 && l[1] != 9) }
/// `[[name]]` or `[[name,text]]`: how long the text between the brackets is, and the name.
spec fn inner(l: Seq<u8>, k: int) -> Seq<u8> { l.subrange(k, l.len() - k) }
spec fn name_len(l: Seq<u8>) -> int { let i = inner(l, 2); if comma(i) < i.len() - 1 { comma(i) } else { i.len() as int } }
spec fn has_reftext(l: Seq<u8>) -> bool { name_len(l) < inner(l, 2).len() }
spec fn anchor_line(l: Seq<u8>) -> bool { opens(l, 2) && inner(l, 2).len() > 0 && xml_name(decode_utf8(inner(l, 2).take(name_len(l)))) }
/// `[attributes]`
spec fn attrs_line(l: Seq<u8>) -> bool { opens(l, 1) && ({ let i = inner(l, 1); !(i.len() > 0 && (i[0] == 32 || i[0] == 9 || (i[0] == 91 && i[i.len() - 1] == 93))) }) }

/// What has been found above the block, which starts `at` here or later.
struct Found { title: Option<Cut>, anchor: Option<Cut>, reftext: Option<Cut>, attrs: Option<Cut>, at: int }
spec fn cut(a: int, z: int) -> Option<Cut> { Some(Cut { a, z }) }
/// One line more.
spec fn one_more(b: Seq<u8>, g: Found) -> Option<Found> {
    let c = b.skip(g.at);
    let l = line_of(c);
    let n = g.at + l.len();
    let at = g.at + next_line(c);
    if g.title is None && title_line(l) { Some(Found { title: cut(g.at + 1, n), at, ..g }) }
    else if g.anchor is None && anchor_line(l) { let k = g.at + 2 + name_len(l); Some(Found { anchor: cut(g.at + 2, k), reftext: if has_reftext(l) { cut(k + 1, n - 2) } else { None }, at, ..g }) }
    else if g.attrs is None && attrs_line(l) { Some(Found { attrs: cut(g.at + 1, n - 1), at, ..g }) }
    else { None }
}
/// All of them: one of each kind, in any order.
spec fn above_from(b: Seq<u8>, g: Found) -> Found decreases b.len() - g.at {
    match one_more(b, g) { None => g, Some(h) => if g.at < h.at <= b.len() { above_from(b, h) } else { g } }
}
spec fn above(b: Seq<u8>) -> Found { above_from(b, Found { title: None, anchor: None, reftext: None, attrs: None, at: 0 }) }

spec fn is_cut(s: Span, o: Option<Span>, c: Option<Cut>) -> bool { (o is Some) == (c is Some) && (o is Some ==> wf(o->0) && part(s, o->0, (c->0).a, (c->0).z)) }
spec fn is_attrs(s: Span, o: Option<Attrlist>, c: Option<Cut>, p: Parser) -> bool {
    (o is Some) == (c is Some) && (o is Some ==> exists|i: Span| wf(i) && part(s, i, (c->0).a, (c->0).z) && o->0 == #[trigger] attrs_of(i, p))
}
spec fn is_found(s: Span, g: Found, t: Option<Span>, a: Option<Span>, x: Option<Span>, l: Option<Attrlist>, start: Span, p: Parser) -> bool {
    wf(start) && part(s, start, g.at, sb(s).len() as int) && is_cut(s, t, g.title) && is_cut(s, a, g.anchor) && is_cut(s, x, g.reftext) && is_attrs(s, l, g.attrs, p)
}

/// A character other than `x` has no byte `x` in its encoding.
proof fn lemma_no_ch(s: Seq<char>, k: int, x: char)
    requires (x as u32) < 128, 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] != x
    ensures forall|i: int| 0 <= i < off(s, k) ==> encode_utf8(s)[i] != x as u8
    decreases k
{
    lemma_off(s, k);
    if k > 0 {
        let c1 = seq![s[0]];
        let r = s.drop_first();
        let b = encode_utf8(s);
        let e = encode_utf8(c1);
        assert(s =~= c1 + r);
        encode_utf8_concat(c1, r);
        encode_utf8_valid_utf8(s);
        encode_utf8_valid_utf8(c1);
        lemma_enc_pos(c1);
        lemma_first_byte(s);
        assert forall|j: int| 0 <= j < k - 1 implies r[j] != x by { assert(s[j + 1] == r[j]); }
        lemma_no_ch(r, k - 1, x);
        lemma_off(r, k - 1);
        assert(s.take(k) =~= c1 + r.take(k - 1));
        encode_utf8_concat(c1, r.take(k - 1));
        assert(off(s, k) == e.len() + off(r, k - 1));
        assert forall|i: int| 0 <= i < off(s, k) implies b[i] != x as u8 by {
            if i >= e.len() { assert(b[i] == encode_utf8(r)[i - e.len()]); }
            else if (s[0] as u32) < 128 { lemma_enc_ascii(s[0]); assert(enc(s[0])[0] == s[0] as u8); }
            else {
                assert(b[i] == e[i]);
                lemma_first_byte(c1);
                encode_utf8_first_scalar(c1);
                if e[i] < 0x80 { lemma_after_ascii(e, i); lemma_scalar_ascii(c1, i); }
            }
        }
    }
}

proof fn lemma_comma(t: Seq<char>)
    ensures ({ let b = encode_utf8(t); let n = comma(b);
        0 <= n <= b.len() && (n < b.len() ==> b[n] == 44)
        && (forall|k: int| 0 <= k < t.len() && t[k] == ',' && (forall|j: int| 0 <= j < k ==> #[trigger] t[j] != ',') ==> #[trigger] off(t, k) == n && n < b.len())
        && ((forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] != ',') ==> n == b.len()) })
{
    let b = encode_utf8(t);
    lemma_comma_is(b);
    let q = |c: char| c != ',';
    let k = run_c(t, q);
    lemma_run_c(t, q);
    assert forall|j: int| 0 <= j < k implies t[j] != ',' by { assert(q(t[j])); }
    lemma_no_ch(t, k, ',');
    lemma_off(t, k);
    lemma_off(t, t.len() as int);
    if k < t.len() { lemma_off_next(t, k); assert(b[off(t, k)] == 44); }
    assert(comma(b) == off(t, k));
    assert forall|m: int| 0 <= m < t.len() && t[m] == ',' && (forall|j: int| 0 <= j < m ==> #[trigger] t[j] != ',') implies #[trigger] off(t, m) == comma(b) && comma(b) < b.len() by {
        if m < k { assert(q(t[m])); } if k < m { assert(t[k] == ','); }
    }
}
proof fn lemma_comma_is(b: Seq<u8>)
    ensures 0 <= comma(b) <= b.len(), comma(b) < b.len() ==> b[comma(b)] == 44, forall|i: int| 0 <= i < comma(b) ==> b[i] != 44
    decreases b.len()
{
    if b.len() > 0 && b[0] != 44 {
        lemma_comma_is(b.skip(1));
        assert forall|i: int| 0 <= i < comma(b) implies b[i] != 44 by { if i > 0 { assert(b.skip(1)[i - 1] == b[i]); } }
    }
}

//@fn blocks/metadata.rs | parse_maybe_block_anchor
//@ spec:
    requires wf(source)
    ensures ({
        let l = line_of(sb(source));
        &&& (r.item is Some) == (opens(l, 2) && inner(l, 2).len() > 0)
        &&& r.item is Some ==> wf((r.item->0).item) && part(source, (r.item->0).item, 2, l.len() - 2) && wf((r.item->0).after) && part(source, (r.item->0).after, next_line(sb(source)), sb(source).len() as int) && next_line(sb(source)) > 0
    })
//@ start:
    proof { lemma_lines(source); lemma_parts(); lemma_first2(source); lemma_pairs(); lemma_ascii_ends(); }
//@end
//@fn blocks/metadata.rs | parse_maybe_attrlist_line
//@ spec:
    requires wf(source)
    ensures ({
        let l = line_of(sb(source));
        &&& (r is Some) == attrs_line(l)
        &&& r is Some ==> is_attrs(source, Some((r->0).item.item), cut(1, l.len() - 1), *parser) && wf((r->0).item.after) && part(source, (r->0).item.after, next_line(sb(source)), sb(source).len() as int) && next_line(sb(source)) > 0
    })
//@ start:
    proof { lemma_lines(source); lemma_parts(); lemma_first2(source); lemma_pairs(); lemma_ascii_ends(); }
//@ before let attrlist_src:
    proof { encode_utf8_valid_utf8(line.data@); lemma_after_ascii(sb(line), 0); }
//@end

/// What a name is, of the first part of `a` or of all of it.
proof fn lemma_name(a: Span)
    ensures
        sb(a).take(sb(a).len() as int) == sb(a), decode_utf8(sb(a)) == a.data@,
        forall|x: Span, k: int| #[trigger] part(a, x, 0, k) ==> decode_utf8(sb(a).take(k)) == x.data@,
{
    assert(sb(a).take(sb(a).len() as int) =~= sb(a));
    encode_utf8_decode_utf8(a.data@);
    assert forall|x: Span, k: int| #[trigger] part(a, x, 0, k) implies decode_utf8(sb(a).take(k)) == x.data@ by { assert(sb(x) =~= sb(a).take(k)); encode_utf8_decode_utf8(x.data@); }
}
proof fn lemma_attrs_of(s: Span, t: Span, a: int, z: int)
    requires part(s, t, a, z)
    ensures forall|o: Option<Attrlist>, x: int, y: int, p: Parser| #[trigger] is_attrs(t, o, Some(Cut { a: x, z: y }), p) ==> is_attrs(s, o, Some(Cut { a: a + x, z: a + y }), p)
{
    lemma_part_of(s, t, a, z);
    assert forall|o: Option<Attrlist>, x: int, y: int, p: Parser| #[trigger] is_attrs(t, o, Some(Cut { a: x, z: y }), p) implies is_attrs(s, o, Some(Cut { a: a + x, z: a + y }), p) by {
        let i = choose|i: Span| wf(i) && part(t, i, x, y) && o->0 == #[trigger] attrs_of(i, p);
        assert(part(s, i, a + x, a + y));
    }
}
proof fn lemma_no_attrs(s: Span, p: Parser)
    ensures forall|o: Option<Attrlist>, c: Option<Cut>| (#[trigger] is_attrs(s, o, c, p) ==> (o is Some) == (c is Some)) && (o is None && c is None ==> is_attrs(s, o, c, p))
{}
proof fn lemma_run_none(b: Seq<u8>)
    ensures forall|k: int| #[trigger] run(b, sp_tab(), k) ==> (k == 0 <==> b.len() == 0 || !(b[0] == 32 || b[0] == 9)) && k >= 0
{}
proof fn lemma_above_step(b: Seq<u8>, g: Found)
    ensures one_more(b, g) is None ==> above_from(b, g) == g, one_more(b, g) is Some && g.at < (one_more(b, g)->0).at <= b.len() ==> above_from(b, g) == above_from(b, one_more(b, g)->0)
{}

/// What is above a block starts like a title or an attribute list.
proof fn lemma_one_more(b: Seq<u8>, g: Found)
    requires g.at == 0, one_more(b, g) is Some
    ensures b.len() > 0, b[0] == 46 || b[0] == 91
{ let c = b.skip(0); assert(c =~= b); lemma_eol(b); lemma_norm(b); let l = line_of(c); assert(l.len() > 0 ==> l[0] == b[0]); }

//@fn blocks/metadata.rs | BlockMetadata::parse
//@ spec:
    requires wf(source)
    ensures
        meta_ok(r.item),
        part(source, r.item.source, skip_blank(sb(source)), sb(source).len() as int),
        is_found(r.item.source, above(sb(r.item.source)), r.item.title_source, r.item.anchor, r.item.anchor_reftext, r.item.attrlist, r.item.block_start, *old(parser)),
        opt_str(r.item.title) == match r.item.title_source { Some(t) => Some(outcome(SubstitutionGroup::Normal, t.data@, *old(parser), None)), None => None },
        *final(parser) == *old(parser),
//@ attrs: #[verifier::spinoff_prover] #[verifier::loop_isolation(true)] #[verifier::rlimit(40)]
//@ nolits
//@ start:
    hide(part); hide(wf); hide(next_line); hide(norm_len); hide(line_of); hide(xml_name); hide(comma); hide(bdy); hide(eol); hide(line_len); hide(spaces_off); hide(above_from); hide(outcome); hide(skip_blank); hide(run); hide(off); hide(at_pat); hide(blank_line); hide(is_attrs);
    let ghost p0 = *parser;
    proof { reveal(headed); assert(!normal().contains(Step::Callouts)); }
//@ after let mut block_start =:
    let ghost mut g = Found { title: None, anchor: None, reftext: None, attrs: None, at: 0 };
    let ghost b = sb(source);
    let ghost end = sb(source).len() as int;
    proof { lemma_part_self(source); lemma_part_facts(source, source, 0, end); lemma_no_attrs(source, p0); }
//@ loop 0:
    invariant
        forall|o: Option<Attrlist>, c: Option<Cut>| (#[trigger] is_attrs(source, o, c, p0) ==> (o is Some) == (c is Some)),
        wf(source), p0 == *parser, b == sb(source), end == b.len(), *parser == *old(parser), 0 <= g.at <= end,
        is_found(source, g, title_source, anchor, reftext, attrlist, block_start, p0),
        above(b) == above_from(b, g), g.anchor is None ==> g.reftext is None, g.at > 0 ==> b.len() > 0 && (b[0] == 46 || b[0] == 91),
    ensures g.at > 0 ==> b.len() > 0 && (b[0] == 46 || b[0] == 91), one_more(b, g) is None, is_found(source, g, title_source, anchor, reftext, attrlist, block_start, p0), above(b) == above_from(b, g)
    decreases end - g.at
//@ loop 0 start:
    let ghost c = sb(block_start);
    let ghost l = line_of(c);
    let ghost n = next_line(c);
    let ghost at = g.at;
    proof {
        lemma_lines(block_start); lemma_part_facts(source, block_start, g.at, end); lemma_first2(block_start); lemma_pairs(); lemma_ascii_ends();
        assert(b.skip(g.at) =~= c);
        lemma_above_step(b, g);
        lemma_part_of(source, block_start, at, end); lemma_attrs_of(source, block_start, at, end);
    }
//@ after let maybe_title =:
    proof {
        lemma_part_facts(block_start, maybe_title.item, 0, l.len() as int);
        lemma_part_facts(block_start, maybe_title.after, n, c.len() as int);
        assert(sb(maybe_title.item) == l);
        if l.len() > 0 && l[0] == 46 { encode_utf8_valid_utf8(maybe_title.item.data@); lemma_after_ascii(l, 0); lemma_part_of(block_start, maybe_title.item, 0, l.len() as int); }
    }
//@ after let title = maybe_title:
    proof { lemma_part_facts(maybe_title.item, title, 1, l.len() as int); lemma_run_none(sb(title)); assert(sb(title).len() > 0 ==> sb(title)[0] == l[1]); }
//@ after let mut anchor_maw =:
    let ghost i = inner(l, 2);
    proof {
        if anchor_maw.item is Some {
            let a = (anchor_maw.item->0).item;
            lemma_part_facts(block_start, a, 2, l.len() - 2);
            assert(sb(a) =~= i);
            lemma_dec(a.data@, i);
            lemma_comma(a.data@);
            if comma(i) < i.len() { encode_utf8_valid_utf8(a.data@); lemma_after_ascii(i, comma(i)); }
            lemma_part_of(block_start, a, 2, l.len() - 2);
            lemma_name(a);
            lemma_part_facts(block_start, (anchor_maw.item->0).after, n, c.len() as int);
        }
    }
//@ closure 1 params: span: &Span<'src>
//@ closure 1:
    -> (o: String) ensures o@ == outcome(SubstitutionGroup::Normal, span.data@, p0, None)
//@ before warnings.push:
    assert(!anchor_line(l));
//@ before anchor = Some(anchor_span):
    assert(comma_position == comma(i) && name_len(l) == comma(i) && has_reftext(l));
    assert(part(block_start, anchor_span, 2, 2 + comma(i)));
    assert(part(source, anchor_span, at + 2, at + (2 + comma(i))));
    assert(part(block_start, reftext_span, 2 + (comma_position + 1), 2 + i.len() as int));
    assert(part(source, reftext_span, at + (2 + (comma_position + 1)), at + (2 + i.len() as int)));
    assert(anchor_line(l));
//@ before anchor = Some(mi.item):
    assert(name_len(l) == i.len() && !has_reftext(l));
    assert(part(source, mi.item, at + 2, at + (l.len() - 2)));
    assert(anchor_line(l));
//@ before let title = title_source:
    proof { lemma_part_facts(source, block_start, g.at, end); lemma_above_step(b, g); assert(!normal().contains(Step::Callouts)); }
//@ before continue:
    assert(one_more(b, g) is Some);
    proof { if g.at == 0 { lemma_one_more(b, g); } g = one_more(b, g)->0; }
//@end

//@fn blocks/metadata.rs | BlockMetadata::is_empty
//@ spec:
    ensures r == (self.title is None && self.anchor is None && self.attrlist is None)
//@end
//@fn blocks/metadata.rs | BlockMetadata::is_discrete
//@ spec:
    ensures r == (self.attrlist is Some && (style1(self.attrlist->0) == Some("discrete"@) || style1(self.attrlist->0) == Some("float"@)))
//@end
