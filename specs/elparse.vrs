// --- C13: reading one element attribute --------------------------------------------------
spec fn ws_nl() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' || c == '\n' }
spec fn wsn(t: Seq<char>) -> int { run_c(t, ws_nl()) }
spec fn ws_c() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' }
spec fn wsp(t: Seq<char>) -> int { run_c(t, ws_c()) }
/// The name at the start of `t`.
spec fn an(t: Seq<char>) -> int { if t.len() > 0 && an1()(t[0]) { 1 + run_c(t.skip(1), an2()) } else { 0 } }
/// The attribute's name, and where the text after its `=` begins.
spec fn ea_name(t: Seq<char>) -> Option<(Seq<char>, int)> {
    let n = an(t);
    let a = n + wsn(t.skip(n));
    let b = a + 1 + wsn(t.skip(a + 1));
    if n > 0 && a < t.len() && t[a] == '=' && b < t.len() && t[b] != ',' { Some((t.take(n), b)) } else { None }
}
/// Where its value begins.
spec fn ea_at(t: Seq<char>) -> int { let b = match ea_name(t) { Some(x) => x.1, None => 0 }; b + wsn(t.skip(b)) }
spec fn is_q(c: char) -> bool { c == '"' || c == '\'' }
/// Where its closing quote is.
spec fn ea_close(v: Seq<char>) -> Option<int> { if v.len() > 0 && is_q(v[0]) && exists|k: int| closes(v, v[0], k) { Some(choose|k: int| closes(v, v[0], k)) } else { None } }
/// `s` without the spaces at its end.
spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == ' ' { rtrim(s.drop_last()) } else { s } }
/// The value as it is written, `v` being where it begins, and where it ends.
spec fn ea_raw(v: Seq<char>) -> (Seq<char>, int) {
    match ea_close(v) {
        Some(k) => (v.subrange(1, k), k + 1),
        None => { let n = run_c(v, not_c(',')); (rtrim(v.take(n)), n) }
    }
}
/// `s` with each `p` replaced by `t`, from the left: `str::replace`.
uninterp spec fn repl_s(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char>;
/// What the normal substitutions make of a text: the unit `subs`.
uninterp spec fn normal(s: Seq<char>, p: Parser) -> Seq<char>;
spec fn ea_value(v: Seq<char>, p: Parser, c: AttrlistContext) -> Seq<char> {
    let raw = ea_raw(v).0;
    if v.len() > 0 && is_q(v[0]) {
        let u = repl_s(raw, seq!['\\', v[0]], seq![v[0]]);
        if v[0] == '\'' && c is Block { normal(u, p) } else { u }
    } else { raw }
}
spec fn ea_open(v: Seq<char>) -> bool { v.len() > 0 && is_q(v[0]) && ea_close(v) is None }
/// What reading an attribute from `t` gives.
spec fn ea_is(r: (ElementAttribute, usize, Vec<WarningType>), t: Seq<char>, start: int, p: Parser, sh: bool, c: AttrlistContext) -> bool {
    let at = ea_at(t);
    let v = t.skip(at);
    let short = sh && ea_name(t) is None && ea_close(v) is None;
    &&& 0 <= at <= t.len() && 0 <= ea_raw(v).1 <= v.len()
    &&& r.0.nm() == (match ea_name(t) { Some(x) => Some(x.0), None => None })
    &&& r.0.vl() == ea_value(v, p, c)
    &&& ints(r.0.shorthand_item_indices@) == (if short { offs(r.0.vl(), cuts(r.0.vl())) } else { Seq::empty() })
    &&& r.1 == start + off(t, at + ea_raw(v).1)
    &&& r.2@ == (if ea_open(v) { seq![WarningType::AttributeValueMissingTerminatingQuote] } else { Seq::empty() }) + rep_w(if short { voids(r.0.vl(), 0) } else { 0 })
}
/// The text from byte `n` on.
spec fn rest(d: Seq<char>, n: int) -> Seq<char> { decode_utf8(encode_utf8(d).subrange(n, encode_utf8(d).len() as int)) }
spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

/// `x` is the text `t`, which is at byte `o`, from character `n` on.
spec fn sfx(t: Seq<char>, o: int, n: int, x: Span) -> bool { wf(x) && 0 <= n <= t.len() && x.data@ == t.skip(n) && x.offset == o + off(t, n) }
/// … or characters `n` to `m`.
spec fn bit(t: Seq<char>, o: int, n: int, m: int, x: Span) -> bool { wf(x) && 0 <= n <= m <= t.len() && x.data@ == t.subrange(n, m) && x.offset == o + off(t, n) }
/// Cutting a span `x`, which is `t` from `n` on, after `k` characters.
proof fn lemma_sfx(t: Seq<char>, o: int, n: int, x: Span, k: int)
    requires sfx(t, o, n, x), 0 <= k <= x.data@.len()
    ensures
        off(t, n + k) == off(t, n) + off(x.data@, k), x.data@.skip(k) == t.skip(n + k), x.data@.take(k) == t.subrange(n, n + k), bdy(sb(x), off(x.data@, k)), off(x.data@, k) <= sb(x).len(),
        forall|i: Span| #[trigger] part(x, i, 0, off(x.data@, k)) && wf(i) ==> bit(t, o, n, n + k, i),
        forall|a: Span| #[trigger] part(x, a, off(x.data@, k), sb(x).len() as int) && wf(a) ==> sfx(t, o, n + k, a),
        x.data@.len() == t.len() - n, forall|j: int| 0 <= j < x.data@.len() ==> #[trigger] x.data@[j] == t[n + j],
{
    let d = x.data@;
    lemma_off(d, k); lemma_off_add(t, n, k); lemma_head(x, k); lemma_tail(x, k);
    assert(d.skip(k) =~= t.skip(n + k));
    assert(d.take(k) =~= t.subrange(n, n + k));
}
/// The longest word, by its length.
proof fn lemma_an(d: Seq<char>)
    ensures 0 <= an(d) <= d.len(), an(d) > 0 <==> d.len() > 0 && an1()(d[0]), forall|k: int| #[trigger] word(d, an1(), an2(), k) ==> k == an(d)
{
    if d.len() > 0 && an1()(d[0]) {
        lemma_run_c(d.skip(1), an2());
        let n = run_c(d.skip(1), an2());
        assert forall|k: int| #[trigger] word(d, an1(), an2(), k) implies k == an(d) by {
            if k < n + 1 { assert(d.skip(1)[k - 1] == d[k]); } else if n + 1 < k { assert(d.skip(1)[n] == d[n + 1]); }
        }
    }
}
proof fn lemma_wsn(d: Seq<char>)
    ensures 0 <= wsn(d) <= d.len(), forall|n: int| #[trigger] run(encode_utf8(d), sp_tab_nl(), n) ==> n == off(d, wsn(d)), wsn(d) < d.len() ==> !ws_nl()(d[wsn(d)])
{
    let k = wsn(d);
    lemma_run_c(d, ws_nl());
    assert forall|j: int| 0 <= j < k implies { let c = #[trigger] d[j]; c == ' ' || c == '\t' || c == '\n' } by {}
    lemma_run(d, sp_tab_nl(), k);
    let (b, m) = (encode_utf8(d), off(d, k));
    assert forall|n: int| #[trigger] run(b, sp_tab_nl(), n) implies n == m by { if n < m { assert(sp_tab_nl()(b[n])); } else if m < n { assert(sp_tab_nl()(b[m])); } }
}
proof fn lemma_wsp(d: Seq<char>)
    ensures 0 <= wsp(d) <= d.len(), forall|n: int| #[trigger] run(encode_utf8(d), sp_tab(), n) ==> n == off(d, wsp(d))
{
    let k = wsp(d);
    lemma_run_c(d, ws_c());
    assert forall|j: int| 0 <= j < k implies { let c = #[trigger] d[j]; c == ' ' || c == '\t' } by {}
    lemma_run(d, sp_tab(), k);
    let (b, m) = (encode_utf8(d), off(d, k));
    assert forall|n: int| #[trigger] run(b, sp_tab(), n) implies n == m by { if n < m { assert(sp_tab()(b[n])); } else if m < n { assert(sp_tab()(b[m])); } }
}
proof fn lemma_at1(d: Seq<char>, c: char)
    requires (c as u32) < 128
    ensures at_pat(encode_utf8(d), encode_utf8(seq![c]), 0) == (d.len() > 0 && d[0] == c), encode_utf8(seq![c]).len() == 1
{
    lemma_enc_ascii(c);
    let b = encode_utf8(d);
    lemma_enc_pos(d);
    if d.len() > 0 { lemma_first_byte(d); }
    if b.len() > 0 { assert(b.subrange(0, 1) =~= seq![b[0]]); assert(enc(c)[0] == c as u8); }
    if d.len() == 0 { assert(d =~= Seq::empty()); assert(b.len() == 0); }
}
proof fn lemma_rtrim(d: Seq<char>)
    ensures ({ let n = rtrim(d).len() as int; 0 <= n <= d.len() && rtrim(d) == d.take(n) && (n > 0 ==> d[n - 1] != ' ') && forall|j: int| n <= j < d.len() ==> #[trigger] d[j] == ' ' })
    decreases d.len()
{
    if d.len() > 0 && d.last() == ' ' {
        lemma_rtrim(d.drop_last());
        assert(d.drop_last().take(rtrim(d).len() as int) =~= d.take(rtrim(d).len() as int));
        assert forall|j: int| rtrim(d).len() <= j < d.len() implies #[trigger] d[j] == ' ' by { if j < d.len() - 1 { assert(d.drop_last()[j] == d[j]); } }
        if rtrim(d).len() > 0 { assert(d.drop_last()[rtrim(d).len() - 1] == d[rtrim(d).len() - 1]); }
    } else { assert(d.take(d.len() as int) =~= d); }
}
/// The last byte of a text that ends with a space.
proof fn lemma_no_trailing_c(d: Seq<char>, n: int)
    requires no_trailing(encode_utf8(d), n)
    ensures n == off(d, rtrim(d).len() as int)
{
    let k = rtrim(d).len() as int;
    let b = encode_utf8(d);
    lemma_rtrim(d);
    lemma_off(d, k);
    let z = d.skip(k);
    assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j] as u32) < 128 by { assert(d[k + j] == ' '); }
    lemma_ascii_seq(z);
    let m = off(d, k);
    assert forall|i: int| m <= i < b.len() implies b[i] == 32 by { assert(b[i] == b.subrange(m, b.len() as int)[i - m]); assert(z[i - m] == d[k + i - m]); }
    if n < m {
        assert(b[m - 1] == 32);
        lemma_last_byte(d.take(k));
        assert(b.subrange(0, m)[m - 1] == b[m - 1]);
        assert(d.take(k).last() == d[k - 1]);
    } else if m < n { assert(b[n - 1] == 32); }
}
/// If the last byte is a space, so is the last character.
proof fn lemma_last_byte(d: Seq<char>)
    requires d.len() > 0
    ensures encode_utf8(d).len() > 0, encode_utf8(d).last() == 32 ==> d.last() == ' '
{
    let k = d.len() - 1;
    lemma_off(d, k); lemma_enc_pos(d);
    let b = encode_utf8(d);
    let z = d.skip(k);
    assert(z =~= seq![d.last()]);
    let e = encode_utf8(z);
    lemma_enc_pos(z);
    assert(e.last() == b.last()) by { assert(b.subrange(off(d, k), b.len() as int).last() == b.last()); }
    if b.last() == 32 {
        if (z[0] as u32) >= 128 { lemma_scalar_ascii(z, e.len() - 1); } else { lemma_enc_ascii(z[0]); assert(e[0] == z[0] as u8); }
    }
}

//@type attributes/element_attribute.rs | ParseShorthand
//@type content/content.rs | Content
impl<'a> CowStr<'a> {
    #[verifier::external_body] fn from<T: VpDisplay>(s: T) -> (r: Self) ensures r.t() == s.disp() { unimplemented!() }
}
spec fn text(c: Content) -> Seq<char> { c.rendered.t() }
impl<'a> Content<'a> { #[verifier::external_body] fn from(s: Span<'a>) -> (r: Self) ensures text(r) == s.data@, r.original == s { unimplemented!() } }
/// A span is the part of a text that its offset tells.
spec fn in_text(t: Seq<char>, x: Span) -> bool {
    let (b, n) = (encode_utf8(t), sb(x).len());
    x.offset + n <= b.len() && bdy(b, x.offset as int) && bdy(b, x.offset + n) && sb(x) =~= b.subrange(x.offset as int, x.offset + n)
}
//@fn attributes/element_attribute.rs | cowstr_from_source_and_span
//@ spec:
    requires wf(*span), in_text(source.t(), *span)
    ensures r.t() == span.data@
//@ start:
    proof {
        lemma_views(); lemma_parts(); axiom_str_len(span.data);
        let (b, o, n) = (encode_utf8(source.t()), span.offset as int, sb(*span).len() as int);
        assert(bdy(b.subrange(o, b.len() as int), n)) by { if o + n < b.len() { assert(b.subrange(o, b.len() as int)[n] == b[o + n]); } }
    }
//@end
/// `str::replace` with a text.
trait VpReplS { spec fn rs(&self) -> Seq<char>; fn vp_replace_s(&self, p: &String, t: &String) -> (r: String) ensures r@ == repl_s(self.rs(), p@, t@); }
impl VpReplS for CowStr<'_> { spec fn rs(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn vp_replace_s(&self, p: &String, t: &String) -> (r: String) { unimplemented!() } }
impl VpEqS for CowStr<'_> { spec fn es(&self) -> Seq<char> { self.t() } }
#[derive(Clone, Copy)] enum SubstitutionGroup { Normal }
impl SubstitutionGroup {
    /// The unit `subs` proves what a group does; here only that it is a function of text and settings is needed.
    #[verifier::external_body] fn apply(&self, content: &mut Content, parser: &Parser, attrlist: Option<&Attrlist>) requires attrlist is None ensures text(*final(content)) == normal(text(*old(content)), *parser) { unimplemented!() }
}
/// What each way of cutting gives, by characters.
proof fn lemma_ops(t: Seq<char>, o: int)
    ensures
        forall|x: Span, i: Span, a: Span| #![trigger sfx(t, o, 0, x), word_split(x, i, a, an1(), an2())] sfx(t, o, 0, x) && word_split(x, i, a, an1(), an2()) ==> bit(t, o, 0, an(t), i) && sfx(t, o, an(t), a) && an(t) > 0,
        forall|x: Span, n: int, i: Span, a: Span| #![trigger sfx(t, o, n, x), splits(x, i, a, sb(i).len() as int)] sfx(t, o, n, x) && splits(x, i, a, sb(i).len() as int) && run(sb(x), sp_tab_nl(), sb(i).len() as int) ==> sfx(t, o, n + wsn(t.skip(n)), a),
        forall|x: Span, n: int, i: Span, a: Span| #![trigger sfx(t, o, n, x), splits(x, i, a, 1)] sfx(t, o, n, x) && splits(x, i, a, 1) && n < t.len() && (t[n] as u32) < 128 ==> sfx(t, o, n + 1, a),
        forall|x: Span, n: int, i: Span, a: Span, k: int| #![trigger sfx(t, o, n, x), takes(x, i, a, k)] sfx(t, o, n, x) && takes(x, i, a, k) ==> bit(t, o, n, n + k, i) && sfx(t, o, n + k, a),
        forall|x: Span, n: int, i: Span, k: int| #![trigger sfx(t, o, n, x), part(x, i, 1, off(x.data@, k))] sfx(t, o, n, x) && part(x, i, 1, off(x.data@, k)) && wf(i) && closes(x.data@, x.data@[0], k) && is_q(x.data@[0]) ==> bit(t, o, n + 1, n + k, i),
        forall|x: Span, n: int, a: Span, k: int| #![trigger sfx(t, o, n, x), part(x, a, off(x.data@, k) + 1, sb(x).len() as int)] sfx(t, o, n, x) && part(x, a, off(x.data@, k) + 1, sb(x).len() as int) && wf(a) && closes(x.data@, x.data@[0], k) && is_q(x.data@[0]) ==> sfx(t, o, n + k + 1, a),
        forall|x: Span, n: int, m: int, i: Span| #![trigger bit(t, o, n, m, x), part(x, i, 0, sb(i).len() as int)] bit(t, o, n, m, x) && part(x, i, 0, sb(i).len() as int) && wf(i) && no_trailing(sb(x), sb(i).len() as int) ==> i.data@ == rtrim(t.subrange(n, m)) && bit(t, o, n, n + rtrim(t.subrange(n, m)).len(), i),
        forall|x: Span, n: int, c: char| #![trigger sfx(t, o, n, x), encode_utf8(seq![c])] sfx(t, o, n, x) && (c as u32) < 128 ==> at_pat(sb(x), encode_utf8(seq![c]), 0) == (n < t.len() && t[n] == c),
        forall|x: Span, n: int| #[trigger] sfx(t, o, n, x) ==> (sb(x).len() == 0 <==> n == t.len()) && (n < t.len() ==> x.data@[0] == t[n]) && x.data@.len() == t.len() - n,
        forall|v: Seq<char>, k: int| #![trigger closes(v, v[0], k)] closes(v, v[0], k) && is_q(v[0]) ==> ea_close(v) == Some(k),
{
    lemma_an(t);
    assert forall|x: Span, i: Span, a: Span| #![trigger sfx(t, o, 0, x), word_split(x, i, a, an1(), an2())] sfx(t, o, 0, x) && word_split(x, i, a, an1(), an2()) implies bit(t, o, 0, an(t), i) && sfx(t, o, an(t), a) && an(t) > 0 by {
        assert(t.skip(0) =~= t); lemma_sfx(t, o, 0, x, an(t));
    }
    assert forall|x: Span, n: int, i: Span, a: Span| #![trigger sfx(t, o, n, x), splits(x, i, a, sb(i).len() as int)] sfx(t, o, n, x) && splits(x, i, a, sb(i).len() as int) && run(sb(x), sp_tab_nl(), sb(i).len() as int) implies sfx(t, o, n + wsn(t.skip(n)), a) by {
        lemma_wsn(x.data@); lemma_sfx(t, o, n, x, wsn(x.data@));
    }
    assert forall|x: Span, n: int, i: Span, a: Span| #![trigger sfx(t, o, n, x), splits(x, i, a, 1)] sfx(t, o, n, x) && splits(x, i, a, 1) && n < t.len() && (t[n] as u32) < 128 implies sfx(t, o, n + 1, a) by {
        assert(x.data@[0] == t[n]); lemma_off1(x.data@); lemma_sfx(t, o, n, x, 1);
    }
    assert forall|x: Span, n: int, i: Span, a: Span, k: int| #![trigger sfx(t, o, n, x), takes(x, i, a, k)] sfx(t, o, n, x) && takes(x, i, a, k) implies bit(t, o, n, n + k, i) && sfx(t, o, n + k, a) by { lemma_sfx(t, o, n, x, k); }
    assert forall|x: Span, n: int, i: Span, k: int| #![trigger sfx(t, o, n, x), part(x, i, 1, off(x.data@, k))] sfx(t, o, n, x) && part(x, i, 1, off(x.data@, k)) && wf(i) && closes(x.data@, x.data@[0], k) && is_q(x.data@[0]) implies bit(t, o, n + 1, n + k, i) by {
        let d = x.data@;
        lemma_off1(d); lemma_sfx(t, o, n, x, 1); lemma_sfx(t, o, n, x, k); lemma_sub(d, 1, k);
        assert(d.subrange(1, k) =~= t.subrange(n + 1, n + k));
        lemma_view(i.data, d.subrange(1, k)) ;
    }
    assert forall|x: Span, n: int, a: Span, k: int| #![trigger sfx(t, o, n, x), part(x, a, off(x.data@, k) + 1, sb(x).len() as int)] sfx(t, o, n, x) && part(x, a, off(x.data@, k) + 1, sb(x).len() as int) && wf(a) && closes(x.data@, x.data@[0], k) && is_q(x.data@[0]) implies sfx(t, o, n + k + 1, a) by {
        lemma_off_next(x.data@, k); lemma_sfx(t, o, n, x, k + 1);
    }
    assert forall|x: Span, n: int, m: int, i: Span| #![trigger bit(t, o, n, m, x), part(x, i, 0, sb(i).len() as int)] bit(t, o, n, m, x) && part(x, i, 0, sb(i).len() as int) && wf(i) && no_trailing(sb(x), sb(i).len() as int) implies i.data@ == rtrim(t.subrange(n, m)) && bit(t, o, n, n + rtrim(t.subrange(n, m)).len(), i) by {
        let d = x.data@;
        lemma_no_trailing_c(d, sb(i).len() as int); lemma_rtrim(d); lemma_head(x, rtrim(d).len() as int);
        assert(d.take(rtrim(d).len() as int) =~= t.subrange(n, n + rtrim(d).len()));
    }
    assert forall|x: Span, n: int, c: char| #![trigger sfx(t, o, n, x), encode_utf8(seq![c])] sfx(t, o, n, x) && (c as u32) < 128 implies at_pat(sb(x), encode_utf8(seq![c]), 0) == (n < t.len() && t[n] == c) by { lemma_at1(x.data@, c); if n < t.len() { assert(x.data@[0] == t[n]); } }
    assert forall|x: Span, n: int| #[trigger] sfx(t, o, n, x) implies (sb(x).len() == 0 <==> n == t.len()) && (n < t.len() ==> x.data@[0] == t[n]) && x.data@.len() == t.len() - n by { lemma_enc_pos(x.data@); if n == t.len() { assert(x.data@ =~= Seq::empty()); } }
    assert forall|v: Seq<char>, k: int| #![trigger closes(v, v[0], k)] closes(v, v[0], k) && is_q(v[0]) implies ea_close(v) == Some(k) by {
        let j = choose|j: int| closes(v, v[0], j);
        assert(closes(v, v[0], j));
        if j < k { assert(v[j] == v[0]); } else if k < j { assert(v[k] == v[0]); }
    }
}
impl VpDisplay for CowStr<'_> { spec fn disp(&self) -> Seq<char> { self.t() } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a> core::ops::Deref for CowStr<'a> { type Target = str; #[verifier::external_body] fn deref(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() } }
impl VpTxt for Span<'_> {
    spec fn tx(&self) -> Seq<char> { self.data@ }
    #[verifier::external_body] fn cp_contains<P: VpAny>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_starts_with<P: VpPat1>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_ends_with<P: VpPat1>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn cp_replace<P: VpPat1>(&self, p: P, t: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn cp_split<P: VpPat1>(&self, c: P) -> (r: VpParts) { unimplemented!() }
    #[verifier::external_body] fn cp_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn cp_as_str(&self) -> (r: &str) { unimplemented!() }
}
/// The text from byte `n` on, and where its parts are.
proof fn lemma_rest(d: Seq<char>, n: int)
    requires bdy(encode_utf8(d), n)
    ensures
        encode_utf8(rest(d, n)) == encode_utf8(d).subrange(n, encode_utf8(d).len() as int),
        forall|x: Span| #[trigger] wf(x) && sb(x) =~= encode_utf8(rest(d, n)) ==> x.data@ == rest(d, n),
        forall|a: int, b: int, x: Span| #[trigger] bit(rest(d, n), n, a, b, x) ==> in_text(d, x),
{
    let (e, t) = (encode_utf8(d), rest(d, n));
    encode_utf8_valid_utf8(d);
    lemma_bdy(e, n);
    let u = e.subrange(n, e.len() as int);
    valid_utf8_split(e, n);
    decode_utf8_encode_utf8(u);
    assert(encode_utf8(t) == u);
    assert forall|x: Span| #[trigger] wf(x) && sb(x) =~= encode_utf8(t) implies x.data@ == t by { lemma_view(x.data, t); }
    assert forall|a: int, b: int, x: Span| #[trigger] bit(t, n, a, b, x) implies in_text(d, x) by {
        lemma_sub(t, a, b);
        let (p, q) = (off(t, a), off(t, b));
        lemma_off(t, b); lemma_off(t.take(b), a);
        assert(t.take(b).take(a) =~= t.take(a)); assert(t.take(b).skip(a) =~= t.subrange(a, b));
        assert(encode_utf8(t.subrange(a, b)) =~= u.subrange(p, q));
        assert(sb(x) =~= e.subrange(n + p, n + q));
        assert(bdy(e, n + p)) by { if n + p < e.len() { assert(u[p] == e[n + p]); } }
        assert(bdy(e, n + q)) by { if n + q < e.len() { assert(u[q] == e[n + q]); } }
    }
}
proof fn lemma_begin(d: Seq<char>, n: int, s: Span, x: Span)
    requires s.data@ == d, s.offset == 0, bdy(encode_utf8(d), n), part(s, x, n, sb(s).len() as int), wf(x)
    ensures sfx(rest(d, n), n, 0, x)
{
    lemma_rest(d, n);
    lemma_view(x.data, rest(d, n));
    lemma_off(rest(d, n), 0);
    assert(rest(d, n).skip(0) =~= rest(d, n));
}
spec fn val(t: Seq<char>, o: int, n: int, i: Span, a: Span) -> bool {
    let w = ea_raw(t.skip(n));
    i.data@ == w.0 && sfx(t, o, n + w.1, a) && exists|p: int, q: int| #[trigger] bit(t, o, p, q, i)
}
proof fn lemma_close(v: Seq<char>)
    ensures
        forall|k: int| #![trigger closes(v, v[0], k)] closes(v, v[0], k) && v.len() > 0 && is_q(v[0]) ==> ea_close(v) == Some(k),
        v.len() == 0 || !is_q(v[0]) || (forall|k: int| !#[trigger] closes(v, v[0], k)) ==> ea_close(v) is None,
{
    assert forall|k: int| #![trigger closes(v, v[0], k)] closes(v, v[0], k) && v.len() > 0 && is_q(v[0]) implies ea_close(v) == Some(k) by {
        let j = choose|j: int| closes(v, v[0], j);
        assert(closes(v, v[0], j));
        if j < k { assert(v[j] == v[0]); } else if k < j { assert(v[k] == v[0]); }
    }
}
proof fn lemma_raw(v: Seq<char>)
    ensures 0 <= ea_raw(v).1 <= v.len()
{ lemma_run_c(v, not_c(',')); if ea_close(v) is Some { let k = choose|k: int| closes(v, v[0], k); assert(closes(v, v[0], k)); } }
/// What each way of cutting a value gives.
proof fn lemma_val(t: Seq<char>, o: int, n: int, x: Span)
    requires sfx(t, o, n, x)
    ensures
        mark_c(not_c(',')),
        forall|i: Span, a: Span, k: int| #![trigger part(x, i, 1, off(x.data@, k)), part(x, a, off(x.data@, k) + 1, sb(x).len() as int)] wf(i) && wf(a) && part(x, i, 1, off(x.data@, k)) && part(x, a, off(x.data@, k) + 1, sb(x).len() as int) && closes(x.data@, x.data@[0], k) && x.data@.len() > 0 && is_q(x.data@[0]) ==> val(t, o, n, i, a),
        ea_close(x.data@) is None ==> forall|i: Span, a: Span, j: Span| #![trigger takes(x, i, a, run_c(x.data@, not_c(','))), part(i, j, 0, sb(j).len() as int)] takes(x, i, a, run_c(x.data@, not_c(','))) && wf(j) && part(i, j, 0, sb(j).len() as int) && no_trailing(sb(i), sb(j).len() as int) ==> val(t, o, n, j, a),
{
    let d = x.data@;
    lemma_close(d);
    lemma_ops(t, o);
    assert forall|i: Span, a: Span, k: int| #![trigger part(x, i, 1, off(x.data@, k)), part(x, a, off(x.data@, k) + 1, sb(x).len() as int)] wf(i) && wf(a) && part(x, i, 1, off(x.data@, k)) && part(x, a, off(x.data@, k) + 1, sb(x).len() as int) && closes(x.data@, x.data@[0], k) && x.data@.len() > 0 && is_q(x.data@[0]) implies val(t, o, n, i, a) by {
        assert(bit(t, o, n + 1, n + k, i)); assert(sfx(t, o, n + k + 1, a));
        assert(d.subrange(1, k) =~= t.subrange(n + 1, n + k));
    }
    if ea_close(d) is None {
        assert forall|i: Span, a: Span, j: Span| #![trigger takes(x, i, a, run_c(x.data@, not_c(','))), part(i, j, 0, sb(j).len() as int)] takes(x, i, a, run_c(x.data@, not_c(','))) && wf(j) && part(i, j, 0, sb(j).len() as int) && no_trailing(sb(i), sb(j).len() as int) implies val(t, o, n, j, a) by {
            let m = run_c(d, not_c(','));
            assert(bit(t, o, n, n + m, i)); assert(sfx(t, o, n + m, a));
            assert(d.take(m) =~= t.subrange(n, n + m));
            assert(bit(t, o, n, n + rtrim(t.subrange(n, n + m)).len(), j));
        }
    }
}
//@fn attributes/element_attribute.rs | ElementAttribute::parse
//@ attrs: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
//@ rename replace: vp_replace_s
//@ nolits:
//@ eqs:
//@ spec:
    requires bdy(encode_utf8(source_text.t()), start_index as int)
    ensures ea_is(r, rest(source_text.t(), start_index as int), start_index as int, *parser, parse_shorthand.0, attrlist_context), r.0.ok()
//@ start:
    hide(part); hide(wf); hide(in_text); hide(rest); hide(ea_raw); hide(ea_close); hide(val);
    let ghost (d, s0, sh0) = (source_text.t(), start_index as int, parse_shorthand.0);
    let ghost t = rest(d, s0);
    let ghost a = an(t) + wsn(t.skip(an(t)));
//@ closure 2:
    -> (__r: CowStr<'src>) requires wf(name), in_text(source_text.t(), name) ensures __r.t() == name.data@
//@ closure 2 params: name: Span<'_>
//@ after let mut source:
    let ghost src = source;
//@ before let (name, after):
    proof { lemma_begin(d, s0, src, source); lemma_rest(d, s0); lemma_an(t); assert(t.skip(0) =~= t); }
    assert(sfx(t, s0, 0, source));
//@ before match space.after.take_prefix:
    assert(sfx(t, s0, a, space.after) && bit(t, s0, 0, an(t), name.item) && an(t) > 0) by { lemma_ops(t, s0); lemma_wsn(t.skip(an(t))); assert(sfx(t, s0, an(t), name.after)); }
    proof { lemma_at1(space.after.data@, '='); reveal_strlit("="); assert("="@ =~= seq!['=']); if a < t.len() { assert(space.after.data@[0] == t[a]); } }
//@ before if space.after.is_empty():
    assert(a < t.len() && t[a] == '=');
    assert(sfx(t, s0, a + 1 + wsn(t.skip(a + 1)), space.after)) by { lemma_ops(t, s0); assert(sfx(t, s0, a + 1, equals.after)); }
    proof { lemma_enc_pos(space.after.data@); lemma_starts1(space.after.data@, ','); }
//@ before let after = after.take_whitespace_with_newline:
    let ghost b = match ea_name(t) { Some(x) => x.1, None => 0 };
    assert(match name { Some(x) => ea_name(t) is Some && x.data@ == (ea_name(t)->0).0 && wf(x) && in_text(d, x), None => ea_name(t) is None });
    assert(sfx(t, s0, b, after));
//@ before let first_char:
    let ghost (at, v) = (ea_at(t), t.skip(ea_at(t)));
    assert(sfx(t, s0, at, after)) by { lemma_ops(t, s0); }
    assert(v == after.data@);
    proof { lemma_val(t, s0, at, after); lemma_close(v); }
//@ before let mut value =:
    assert(val(t, s0, at, value.item, value.after));
    assert(value.item.data@ == ea_raw(v).0 && sfx(t, s0, at + ea_raw(v).1, value.after) && in_text(d, value.item) && wf(value.item)) by { reveal(val); }
    assert(warnings@ =~= (if ea_open(v) { seq![WarningType::AttributeValueMissingTerminatingQuote] } else { Seq::empty() }));
    assert(parse_shorthand.0 == (sh0 && ea_close(v) is None));
//@ before let mut new_value:
    proof { reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']); }
    assert(escaped_quote@ =~= seq!['\\', v[0]]);
//@ before let shorthand_item_indices:
    assert(value.t() == ea_value(v, *parser, attrlist_context));
    let ghost (w0, short) = (warnings@, sh0 && ea_name(t) is None && ea_close(v) is None);
//@ before let name = name.:
    assert(ints(shorthand_item_indices@) == (if short { offs(value.t(), cuts(value.t())) } else { Seq::empty() }));
    assert(warnings@ == w0 + rep_w(if short { voids(value.t(), 0) } else { 0 }));
    assert(ints(shorthand_item_indices@).len() == shorthand_item_indices@.len());
    proof { lemma_raw(v); }
//@end
