// --- C13: reading an attribute list ------------------------------------------------------
/// An attribute, by what it gives.
struct Ab { nm: Option<Seq<char>>, vl: Seq<char>, short: bool }
spec fn ab(t: Seq<char>, p: Parser, sh: bool, c: AttrlistContext) -> Ab {
    let v = t.skip(ea_at(t));
    Ab { nm: match ea_name(t) { Some(x) => Some(x.0), None => None }, vl: ea_value(v, p, c), short: sh && ea_name(t) is None && ea_close(v) is None }
}
spec fn ab_end(t: Seq<char>) -> int { ea_at(t) + ea_raw(t.skip(ea_at(t))).1 }
spec fn ab_warn(t: Seq<char>, p: Parser, sh: bool, c: AttrlistContext) -> Seq<WarningType> {
    let v = t.skip(ea_at(t));
    let a = ab(t, p, sh, c);
    (if ea_open(v) { seq![WarningType::AttributeValueMissingTerminatingQuote] } else { Seq::empty() }) + rep_w(if a.short { voids(a.vl, 0) } else { 0 })
}
spec fn is_ab(e: ElementAttribute, a: Ab) -> bool { e.nm() == a.nm && e.vl() == a.vl && ints(e.shorthand_item_indices@) == (if a.short { offs(a.vl, cuts(a.vl)) } else { Seq::empty() }) }
spec fn all_ab(l: Seq<ElementAttribute>, a: Seq<Ab>) -> bool { l.len() == a.len() && forall|i: int| 0 <= i < l.len() ==> is_ab(#[trigger] l[i], a[i]) }
/// Past the commas, and the white space after each, at `j`; how many there are.
spec fn commas(s: Seq<char>, j: int) -> (int, int) decreases s.len() - j
    via commas_dec
{ if 0 <= j < s.len() && s[j] == ',' { let r = commas(s, j + 1 + wsp(s.skip(j + 1))); (r.0, r.1 + 1) } else { (j, 0) } }
#[via_fn]
proof fn commas_dec(s: Seq<char>, j: int) { if 0 <= j < s.len() { lemma_wsp(s.skip(j + 1)); } }
/// What a list from `k` on gives: its attributes, where it ends, and how often which warning.
spec fn al(s: Seq<char>, k: int, p: Parser, sh: bool, some: bool, c: AttrlistContext) -> (Seq<Ab>, int, Seq<WarningType>) decreases s.len() - k
    via al_dec
{
    if !(0 <= k <= s.len()) { (Seq::empty(), k, Seq::empty()) } else {
        let t = s.skip(k);
        let a = ab(t, p, sh, c);
        let w = ab_warn(t, p, sh, c);
        let e = k + ab_end(t);
        if a.nm is None && a.vl.len() == 0 && e == s.len() && !some { (Seq::empty(), e, w) } else {
            let keep = a.nm is None || a.vl != "None"@;
            let one = if keep { seq![a] } else { Seq::empty() };
            let j = e + wsp(s.skip(e));
            if j < s.len() && s[j] == ',' {
                let q = commas(s, j);
                let r = al(s, q.0, p, sh && a.nm is Some, some || keep, c);
                (one + r.0, r.1, w + rep_e(q.1 - 1) + r.2)
            } else { (one, j, w) }
        }
    }
}
#[via_fn]
proof fn al_dec(s: Seq<char>, k: int, p: Parser, sh: bool, some: bool, c: AttrlistContext) {
    if 0 <= k <= s.len() {
        let t = s.skip(k);
        lemma_end(t);
        let e = k + ab_end(t);
        lemma_wsp(s.skip(e));
        let j = e + wsp(s.skip(e));
        if j < s.len() && s[j] == ',' { lemma_commas(s, j); }
    }
}
spec fn rep_e(n: int) -> Seq<WarningType> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| WarningType::EmptyAttributeValue) }
proof fn lemma_end(t: Seq<char>)
    ensures 0 <= ea_at(t) <= t.len(), 0 <= ab_end(t) <= t.len()
{
    lemma_an(t);
    let n = an(t); lemma_wsn(t.skip(n));
    let a = n + wsn(t.skip(n));
    if a < t.len() { lemma_wsn(t.skip(a + 1)); }
    let b = match ea_name(t) { Some(x) => x.1, None => 0 };
    lemma_wsn(t.skip(b));
    lemma_raw(t.skip(ea_at(t)));
}
proof fn lemma_commas(s: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures j <= commas(s, j).0 <= s.len(), j < s.len() && s[j] == ',' ==> j < commas(s, j).0 && commas(s, j).1 >= 1, commas(s, j).1 >= 0, commas(s, j).0 < s.len() ==> s[commas(s, j).0] != ','
    decreases s.len() - j
{
    if j < s.len() && s[j] == ',' { lemma_wsp(s.skip(j + 1)); lemma_commas(s, j + 1 + wsp(s.skip(j + 1))); }
}
/// What replacing attribute references makes of a text: the unit `repl`.
uninterp spec fn refs(s: Seq<char>, p: Parser) -> Seq<char>;
#[derive(Clone, Copy)] enum SubstitutionStep { AttributeReferences }
impl SubstitutionStep {
    #[verifier::external_body] fn apply(&self, content: &mut Content, parser: &Parser, attrlist: Option<&Attrlist>) requires attrlist is None ensures text(*final(content)) == refs(text(*old(content)), *parser) { unimplemented!() }
}
spec fn al_text(s: Seq<char>, p: Parser) -> Seq<char> { if s.contains('{') && s.contains('}') { refs(s, p) } else { s } }
/// `[anchor]`
spec fn bracketed(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '[' && s.last() == ']' }
spec fn w_types(w: Seq<Warning>) -> Seq<WarningType> { w.map_values(|x: Warning| x.warning) }
spec fn al_is(r: MatchAndWarnings<MatchedItem<Attrlist>>, src: Span, p: Parser, c: AttrlistContext) -> bool {
    let s = al_text(src.data@, p);
    let l = al(s, 0, p, true, false, c);
    let a = r.item.item;
    &&& a.source == src && part(src, r.item.after, sb(src).len() as int, sb(src).len() as int)
    &&& forall|i: int| 0 <= i < r.warnings@.len() ==> (#[trigger] r.warnings@[i]).source == src
    &&& a.anc() == (if bracketed(s) { Some(s.subrange(1, s.len() - 1)) } else { None })
    &&& all_ab(a.l(), if bracketed(s) { Seq::empty() } else { l.0 })
    &&& w_types(r.warnings@) == (if bracketed(s) { Seq::empty() } else { l.2 + (if l.1 < s.len() { seq![WarningType::MissingCommaAfterQuotedAttributeValue] } else { Seq::empty() }) })
}
//@type warnings.rs | Warning
//@type warnings.rs | MatchAndWarnings
/// What cutting the text `s` at `n` gives.
proof fn lemma_at(s: Seq<char>, n: int, x: Span)
    requires sfx(s, 0, n, x)
    ensures
        sb(x).len() == 0 <==> n == s.len(), x.data@ == s.skip(n), 0 <= wsp(s.skip(n)), n + wsp(s.skip(n)) <= s.len(),
        at_pat(sb(x), encode_utf8(seq![',']), 0) == (n < s.len() && s[n] == ','), starts(x.data@, seq![',']) == (n < s.len() && s[n] == ','),
        n < s.len() && s[n] == ',' ==> bdy(sb(x), 1) && sb(x).len() >= 1,
        forall|i: Span, a: Span| #[trigger] splits(x, i, a, sb(i).len() as int) && run(sb(x), sp_tab(), sb(i).len() as int) ==> sfx(s, 0, n + wsp(s.skip(n)), a),
        forall|a: Span| n < s.len() && s[n] == ',' && wf(a) && #[trigger] part(x, a, 1, sb(x).len() as int) ==> sfx(s, 0, n + 1, a),
{
    let d = x.data@;
    lemma_enc_pos(d); lemma_at1(d, ','); lemma_starts1(d, ','); lemma_wsp(d);
    if n == s.len() { assert(d =~= Seq::empty()); } else { assert(d[0] == s[n]); }
    lemma_sfx(s, 0, n, x, wsp(d));
    if n < s.len() && s[n] == ',' { lemma_off1(d); lemma_sfx(s, 0, n, x, 1); }
}
proof fn lemma_skip_ws(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures 0 <= wsp(s.skip(n)), n + wsp(s.skip(n)) <= s.len(), forall|x: Span, i: Span, a: Span| #![trigger sfx(s, 0, n, x), splits(x, i, a, sb(i).len() as int)] sfx(s, 0, n, x) && splits(x, i, a, sb(i).len() as int) && run(sb(x), sp_tab(), sb(i).len() as int) ==> sfx(s, 0, n + wsp(s.skip(n)), a)
{
    lemma_wsp(s.skip(n));
    assert forall|x: Span, i: Span, a: Span| #![trigger sfx(s, 0, n, x), splits(x, i, a, sb(i).len() as int)] sfx(s, 0, n, x) && splits(x, i, a, sb(i).len() as int) && run(sb(x), sp_tab(), sb(i).len() as int) implies sfx(s, 0, n + wsp(s.skip(n)), a) by { lemma_at(s, n, x); }
}
proof fn lemma_rest_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures rest(s, off(s, k)) == s.skip(k), bdy(encode_utf8(s), off(s, k)), off(s, k) <= encode_utf8(s).len(), forall|n: int| 0 <= n <= s.len() - k ==> off(s, k) + #[trigger] off(s.skip(k), n) == off(s, k + n),
{
    lemma_off(s, k);
    assert(encode_utf8(s).subrange(off(s, k), encode_utf8(s).len() as int) =~= encode_utf8(s.skip(k)));
    encode_utf8_decode_utf8(s.skip(k));
    assert forall|n: int| 0 <= n <= s.len() - k implies off(s, k) + #[trigger] off(s.skip(k), n) == off(s, k + n) by { lemma_off_add(s, k, n); }
}
proof fn lemma_brackets(s: Seq<char>)
    ensures
        starts(s, seq!['[']) && ends(s, seq![']']) <==> bracketed(s),
        bracketed(s) ==> s.len() >= 2 && encode_utf8(s).len() >= 2 && bdy(encode_utf8(s), 1) && bdy(encode_utf8(s), encode_utf8(s).len() - 1)
            && forall|r: &str| #[trigger] r.spec_bytes() =~= encode_utf8(s).subrange(1, encode_utf8(s).len() - 1) ==> r@ == s.subrange(1, s.len() - 1),
{
    let n = s.len() as int;
    lemma_starts1(s, '[');
    if n > 0 { assert(s.skip(n - 1)[0] == s.last()); if s.last() == ']' { assert(s.skip(n - 1) =~= seq![']']); } }
    if bracketed(s) {
        lemma_off1(s); lemma_sub(s, 1, n - 1); lemma_off_next(s, n - 1);
        assert(s.take(n) =~= s);
    }
}
proof fn lemma_rep_e(w: Seq<WarningType>, n: int)
    requires n >= 1
    ensures w.push(WarningType::EmptyAttributeValue) + rep_e(n - 1) == w + rep_e(n)
{ assert(w.push(WarningType::EmptyAttributeValue) + rep_e(n - 1) =~= w + rep_e(n)); }
/// One step.
proof fn lemma_al(s: Seq<char>, k: int, p: Parser, sh: bool, some: bool, c: AttrlistContext)
    requires 0 <= k <= s.len()
    ensures ({
        let (a, w, e) = (ab(s.skip(k), p, sh, c), ab_warn(s.skip(k), p, sh, c), k + ab_end(s.skip(k)));
        let (j, keep, r) = (e + wsp(s.skip(e)), a.nm is None || a.vl != "None"@, al(s, k, p, sh, some, c));
        let q = commas(s, j);
        let r2 = al(s, q.0, p, sh && a.nm is Some, some || keep, c);
        &&& k <= e <= j <= s.len()
        &&& a.nm is None && a.vl.len() == 0 && e == s.len() && !some ==> r == (Seq::<Ab>::empty(), e, w)
        &&& !(a.nm is None && a.vl.len() == 0 && e == s.len() && !some) && (j == s.len() || s[j] != ',') ==> r == (if keep { seq![a] } else { Seq::<Ab>::empty() }, j, w)
        &&& !(a.nm is None && a.vl.len() == 0 && e == s.len() && !some) && j < s.len() && s[j] == ',' ==> k < q.0 <= s.len() && q.1 >= 1
            && r.1 == r2.1 && r.0 == (if keep { seq![a] } else { Seq::<Ab>::empty() }) + r2.0 && r.2 == w + rep_e(q.1 - 1) + r2.2
    })
{
    let (a, w, e) = (ab(s.skip(k), p, sh, c), ab_warn(s.skip(k), p, sh, c), k + ab_end(s.skip(k)));
    lemma_end(s.skip(k)); lemma_wsp(s.skip(e));
    let (j, keep, r) = (e + wsp(s.skip(e)), a.nm is None || a.vl != "None"@, al(s, k, p, sh, some, c));
    lemma_commas(s, j);
    let q = commas(s, j);
    let r2 = al(s, q.0, p, sh && a.nm is Some, some || keep, c);
}
proof fn lemma_cat3<T>(x: Seq<T>, a: Seq<T>, b: Seq<T>) ensures x + (a + b) == x + a + b { assert(x + (a + b) =~= x + a + b); }
proof fn lemma_from(s: Seq<char>, e: int)
    requires 0 <= e <= s.len()
    ensures forall|x: Span, y: Span| #[trigger] part(x, y, off(s, e), sb(x).len() as int) && x.data@ == s && x.offset == 0 && wf(y) ==> sfx(s, 0, e, y)
{
    assert forall|x: Span, y: Span| #[trigger] part(x, y, off(s, e), sb(x).len() as int) && x.data@ == s && x.offset == 0 && wf(y) implies sfx(s, 0, e, y) by { lemma_tail(x, e); }
}
proof fn lemma_ab(r: (ElementAttribute, usize, Vec<WarningType>), t: Seq<char>, start: int, p: Parser, sh: bool, c: AttrlistContext)
    requires ea_is(r, t, start, p, sh, c)
    ensures is_ab(r.0, ab(t, p, sh, c)), r.1 == start + off(t, ab_end(t)), r.2@ == ab_warn(t, p, sh, c), 0 <= ab_end(t) <= t.len()
{ lemma_end(t); }
proof fn lemma_types(w: Seq<Warning>)
    ensures forall|x: Warning| w_types(#[trigger] w.push(x)) == w_types(w).push(x.warning)
{ assert forall|x: Warning| w_types(#[trigger] w.push(x)) == w_types(w).push(x.warning) by { assert(w_types(w.push(x)) =~= w_types(w).push(x.warning)); } }
proof fn lemma_commas_step(s: Seq<char>, j: int)
    requires 0 <= j <= s.len()
    ensures
        j <= commas(s, j).0 <= s.len(), commas(s, j).1 >= 0,
        j < s.len() && s[j] == ',' ==> ({ let m = j + 1 + wsp(s.skip(j + 1)); j < m <= s.len() && commas(s, j) == (commas(s, m).0, commas(s, m).1 + 1) && commas(s, m).1 >= 0 }),
        j == s.len() || s[j] != ',' ==> commas(s, j) == (j, 0int),
{ lemma_commas(s, j); if j < s.len() { lemma_wsp(s.skip(j + 1)); lemma_commas(s, j + 1 + wsp(s.skip(j + 1))); } }
proof fn lemma_rep_0(w: Seq<WarningType>) ensures w + rep_e(0) == w { assert(w + rep_e(0) =~= w); }
proof fn lemma_off_end(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures off(s, n) < encode_utf8(s).len() <==> n < s.len()
{ lemma_off(s, n); if n < s.len() { lemma_off_next(s, n); lemma_off(s, n + 1); } else { assert(s.take(n) =~= s); } }
//@fn attributes/attrlist.rs | Attrlist::parse
//@ attrs: #[verifier::spinoff_prover] #[verifier::rlimit(40)] #[verifier::allow_complex_invariants]
//@ eqs:
//@ nolits:
//@ spec:
    requires wf(source)
    ensures al_is(r, source, *parser, attrlist_context), r.item.item.ok()
//@ start:
    hide(part); hide(wf); hide(is_ab); hide(ab); hide(ab_end); hide(ab_warn); hide(al); hide(commas); hide(run); hide(at_pat); hide(bdy); hide(starts); hide(ends); hide(wsp); hide(off); hide(rep_e);
    let ghost (p, c) = (*parser, attrlist_context);
    let ghost s = al_text(source.data@, p);
    let ghost full = al(s, 0, p, true, false, c);
    proof { reveal_strlit("None"); reveal_strlit(","); assert(","@ =~= seq![',']); assert(",".spec_bytes() == encode_utf8(seq![','])); lemma_enc_ascii(','); }
//@ before if source_cow.starts_with:
    assert(source_cow.t() == s);
    proof { lemma_brackets(s); lemma_rest_skip(s, 0); lemma_off(s, 0); assert(w_types(Seq::empty()) =~= Seq::empty()); }
//@ before let mut index:
    let ghost mut k = 0int;
    let ghost mut acc = Seq::<Ab>::empty();
    assert(!bracketed(s));
    assert(acc + full.0 =~= full.0);
    assert(w_types(warnings@) + full.2 =~= full.2);
//@ loop 0:
    invariant_except_break
        0 <= k <= s.len(), index == off(s, k), __broke is None,
        acc + al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c).0 == full.0,
        al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c).1 == full.1,
        w_types(warnings@) + al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c).2 == full.2,
    invariant
        source_cow.t() == s, wf(source), p == *parser, c == attrlist_context, ",".spec_bytes() == encode_utf8(seq![',']), ",".spec_bytes().len() == 1,
        all_ab(attributes@, acc), forall|i: int| 0 <= i < attributes@.len() ==> (#[trigger] attributes@[i]).ok(),
        forall|i: int| 0 <= i < warnings@.len() ==> (#[trigger] warnings@[i]).source == source,
    ensures
        0 <= full.1 <= s.len(), __broke == Some(off(s, full.1) as usize), off(s, full.1) <= usize::MAX, acc == full.0, w_types(warnings@) == full.2,
    decreases s.len() - k
//@ loop 0 start:
    proof { lemma_rest_skip(s, k); lemma_al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c); }
    let ghost acc0 = acc;
    let ghost now = al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c);
    let ghost (t, k0, sh0, at0, w0) = (s.skip(k), k, parse_shorthand_items, attributes@, w_types(warnings@));
    let ghost (a, w, e) = (ab(t, p, sh0, c), ab_warn(t, p, sh0, c), k + ab_end(t));
    let ghost j = e + wsp(s.skip(e));
    let ghost keep = a.nm is None || a.vl != "None"@;
//@ after let (attr, new_index, warning_types):
    proof { lemma_ab((attr, new_index, warning_types), t, index as int, p, sh0, c); lemma_rest_skip(s, e); }
    assert(new_index == off(s, e));
//@ loop 1 iter: vp_into_iter($e)
//@ loop 1 pre:
    let ghost wv = warning_types@;
//@ loop 1:
    invariant
        __it1.s() == wv, 0 <= __it1.k() <= wv.len(), w_types(warnings@) == w0 + wv.take(__it1.k()),
        forall|i: int| 0 <= i < warnings@.len() ==> (#[trigger] warnings@[i]).source == source,
    decreases wv.len() - __it1.k()
//@ loop 1 start:
    proof { lemma_types(warnings@); assert(wv.take(__it1.k()) =~= wv.take(__it1.k() - 1).push(wv[__it1.k() - 1])); }
//@ before if attr.name().is_none() {:
    assert(w_types(warnings@) =~= w0 + w);
//@ after let mut after:
    proof { lemma_from(s, e); lemma_at(s, e, after); }
    assert(attr.nm() == a.nm && attr.vl() == a.vl) by { reveal(is_ab); }
//@ before after = after.take_whitespace().after:
    proof { acc = acc + if keep { seq![a] } else { Seq::empty() }; }
    assert(all_ab(attributes@, acc));
//@ before match after.take_prefix(","):
    proof { lemma_at(s, j, after); }
//@ before after = comma.after.take_whitespace:
    proof { lemma_at(s, j + 1, comma.after); }
//@ before while after.starts_with:
    let ghost mut m = j + 1 + wsp(s.skip(j + 1));
    let ghost q = commas(s, j);
    proof { lemma_commas_step(s, j); assert(w + Seq::<WarningType>::empty() =~= w); }
//@ loop 2:
    invariant
        sfx(s, 0, m, after), commas(s, m).0 == q.0, commas(s, m).1 >= 0, w_types(warnings@) + rep_e(commas(s, m).1) == w0 + w + rep_e(q.1 - 1),
        forall|i: int| 0 <= i < warnings@.len() ==> (#[trigger] warnings@[i]).source == source,
    decreases s.len() - m
//@ loop 2 start:
    proof { lemma_at(s, m, after); lemma_skip_ws(s, m + 1); lemma_commas_step(s, m); lemma_types(warnings@); lemma_rep_e(w_types(warnings@), commas(s, m).1); }
//@ loop 2 end:
    proof { m = m + 1 + wsp(s.skip(m + 1)); }
//@ after index = after.byte_offset():
    proof { lemma_at(s, m, after); lemma_commas_step(s, m); lemma_rep_0(w_types(warnings@)); k = m; }
    assert(k == q.0 && parse_shorthand_items == (sh0 && a.nm is Some) && (attributes@.len() > 0) == (at0.len() > 0 || keep));
    assert(acc == acc0 + (if keep { seq![a] } else { Seq::empty() }));
    assert(acc0 + now.0 == full.0);
    assert(w_types(warnings@) == w0 + w + rep_e(q.1 - 1));
    assert(w0 + now.2 == full.2);
    let ghost r2 = al(s, q.0, p, sh0 && a.nm is Some, at0.len() > 0 || keep, c);
    proof { lemma_cat3(acc0, if keep { seq![a] } else { Seq::empty() }, r2.0); lemma_cat3(w0, w + rep_e(q.1 - 1), r2.2); lemma_cat3(w0, w, rep_e(q.1 - 1)); }
    assert((acc0 + if keep { seq![a] } else { Seq::empty() }) + r2.0 == acc0 + now.0);
    assert(w0 + w + rep_e(q.1 - 1) + r2.2 == w0 + now.2);
    assert(al(s, k, p, parse_shorthand_items, attributes@.len() > 0, c) == r2);
//@ before if after_index < source_cow.len():
    proof { lemma_rest_skip(s, full.1); lemma_off_end(s, full.1); lemma_types(warnings@); assert(full.2 + Seq::<WarningType>::empty() =~= full.2); assert(forall|x: WarningType| full.2.push(x) =~= full.2 + seq![x]); }
//@end
