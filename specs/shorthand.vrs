// --- C13: shorthand ----------------------------------------------------------------------
proof fn lemma_off_add(t: Seq<char>, i: int, k: int)
    requires 0 <= i, 0 <= k, i + k <= t.len()
    ensures off(t, i + k) == off(t, i) + off(t.skip(i), k)
{ assert(t.take(i + k) =~= t.take(i) + t.skip(i).take(k)); encode_utf8_concat(t.take(i), t.skip(i).take(k)); }
proof fn lemma_off1(t: Seq<char>)
    ensures t.len() > 0 && (t[0] as u32) < 128 ==> off(t, 1) == 1
{ if t.len() > 0 { assert(t.take(1) =~= seq![t[0]]); if (t[0] as u32) < 128 { lemma_enc_ascii(t[0]); } } }

spec fn delim(c: char) -> bool { c == '#' || c == '%' || c == '.' }
/// Where the delimiters are, from `i` on.
spec fn dels(t: Seq<char>, i: int) -> Seq<int> decreases t.len() - i { if 0 <= i < t.len() { if delim(t[i]) { seq![i] + dels(t, i + 1) } else { dels(t, i + 1) } } else { Seq::empty() } }
/// The first from `i` on, or the end.
spec fn dnext(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && !delim(t[i]) { dnext(t, i + 1) } else { i } }
/// How many have nothing between them and the next, or the end.
spec fn voids(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() { (if delim(t[i]) && (i + 1 == t.len() || delim(t[i + 1])) { 1int } else { 0 }) + voids(t, i + 1) } else { 0 } }
spec fn sp_lead(t: Seq<char>) -> int decreases t.len() { if t.len() > 0 && (t[0] == ' ' || t[0] == '\t') { 1 + sp_lead(t.skip(1)) } else { 0 } }
/// Where the items of a shorthand begin: its style, and each delimiter.
spec fn cuts(t: Seq<char>) -> Seq<int> {
    let k = dnext(t, 0);
    (if k > 0 { seq![sp_lead(t.take(k))] } else { Seq::empty() }) + dels(t, k)
}
spec fn offs(t: Seq<char>, c: Seq<int>) -> Seq<int> { c.map_values(|i: int| off(t, i)) }
spec fn ints(s: Seq<usize>) -> Seq<int> { s.map_values(|i: usize| i as int) }
spec fn rep_w(n: int) -> Seq<WarningType> { Seq::new(n as nat, |i: int| WarningType::EmptyShorthandItem) }

proof fn lemma_dnext(t: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= t.len(), forall|j: int| i <= j < k ==> !delim(#[trigger] t[j]), k < t.len() ==> delim(t[k])
    ensures dnext(t, i) == k, dels(t, i) == dels(t, k), voids(t, i) == voids(t, k)
    decreases k - i
{ if i < k { lemma_dnext(t, i + 1, k); } }
proof fn lemma_voids(t: Seq<char>, i: int)
    requires 0 <= i
    ensures voids(t, i) >= 0
    decreases t.len() - i
{ if i < t.len() { lemma_voids(t, i + 1); } }
proof fn lemma_sp_lead(t: Seq<char>)
    ensures 0 <= sp_lead(t) <= t.len(), forall|j: int| 0 <= j < sp_lead(t) ==> (#[trigger] t[j] == ' ' || t[j] == '\t'), sp_lead(t) < t.len() ==> t[sp_lead(t)] != ' ' && t[sp_lead(t)] != '\t'
    decreases t.len()
{
    if t.len() > 0 && (t[0] == ' ' || t[0] == '\t') {
        lemma_sp_lead(t.skip(1));
        let n = sp_lead(t.skip(1));
        assert forall|j: int| 0 <= j < n + 1 implies (#[trigger] t[j] == ' ' || t[j] == '\t') by { if j > 0 { assert(t.skip(1)[j - 1] == t[j]); } }
        if n < t.skip(1).len() { assert(t.skip(1)[n] == t[n + 1]); }
    }
}
/// White space at the start of a span, by its characters.
proof fn lemma_run_is(t: Seq<char>, n: int)
    requires run(encode_utf8(t), sp_tab(), n)
    ensures n == off(t, sp_lead(t))
{
    let k = sp_lead(t);
    lemma_sp_lead(t);
    assert forall|j: int| 0 <= j < k implies { let c = #[trigger] t[j]; c == ' ' || c == '\t' } by {}
    lemma_run(t, sp_tab(), k);
    let (b, m) = (encode_utf8(t), off(t, k));
    if n < m { assert(sp_tab()(b[n])); } else if m < n { assert(sp_tab()(b[m])); }
}

/// An item: its delimiter is at `i`, where the span `s` begins.
proof fn lemma_item(t: Seq<char>, i: int, s: Span)
    requires 0 <= i < t.len(), delim(t[i]), s.data@ == t.skip(i), wf(s), s.offset == off(t, i)
    ensures
        ({
            let (d, j) = (s.data@, dnext(t, i + 1));
            &&& i < j <= t.len() && (j < t.len() ==> delim(t[j]))
            &&& off(d, 1) == 1 && bdy(sb(s), 1) && sb(s).len() >= 1
            &&& (forall|r: Span| #[trigger] part(s, r, 1, sb(s).len() as int) ==> r.data@ == t.skip(i + 1) && r.offset == off(t, i + 1))
            &&& (forall|r: Span| #[trigger] part(s, r, off(d, j - i), sb(s).len() as int) ==> r.data@ == t.skip(j) && r.offset == off(t, j))
            &&& off(t.skip(i + 1), j - i - 1) + 1 == off(d, j - i) && bdy(sb(s), off(d, j - i)) && (j == t.len() ==> off(d, j - i) == sb(s).len())
            &&& (off(t.skip(i + 1), j - i - 1) == 0 <==> j == i + 1)
            &&& (forall|k: int| #[trigger] first_yes(is_shorthand_delimiter, t.skip(i + 1), k) ==> k == j - i - 1 && j < t.len())
            &&& ((forall|q: int| 0 <= q < t.skip(i + 1).len() ==> call_ensures(is_shorthand_delimiter, (#[trigger] t.skip(i + 1)[q],), false)) ==> j == t.len())
            &&& (forall|v: Seq<usize>, x: usize, y: Seq<int>| #![trigger ints(v.push(x)), offs(t, y)] x == off(t, i) ==> ints(v.push(x)) + offs(t, dels(t, j)) == ints(v) + offs(t, dels(t, i)))
            &&& (forall|w: Seq<WarningType>| #![trigger w.push(WarningType::EmptyShorthandItem)] j == i + 1 ==> w.push(WarningType::EmptyShorthandItem) + rep_w(voids(t, j)) == w + rep_w(voids(t, i)))
            &&& (j > i + 1 ==> voids(t, i) == voids(t, j))
        }),
{
    let (d, j) = (s.data@, dnext(t, i + 1));
    assert(d[0] == t[i]);
    lemma_dnext_is(t, i + 1);
    lemma_dnext(t, i + 1, j);
    lemma_voids(t, j);
    lemma_off1(d); lemma_tail(s, 1); lemma_off(d, 1); lemma_off_add(t, i, 1);
    assert(d.skip(1) =~= t.skip(i + 1));
    lemma_tail(s, j - i); lemma_off(d, j - i); lemma_off_add(t, i, j - i);
    assert(d.skip(j - i) =~= t.skip(j));
    lemma_off_add(d, 1, j - i - 1);
    lemma_off(t.skip(i + 1), j - i - 1);
    assert(d.take(d.len() as int) =~= d);
    let n = t.skip(i + 1);
    assert forall|k: int| #[trigger] first_yes(is_shorthand_delimiter, n, k) implies k == j - i - 1 && j < t.len() by {
        assert forall|q: int| i + 1 <= q < i + 1 + k implies !delim(#[trigger] t[q]) by { assert(n[q - i - 1] == t[q]); }
        assert(n[k] == t[i + 1 + k]);
        lemma_dnext(t, i + 1, i + 1 + k);
    }
    if forall|q: int| 0 <= q < n.len() ==> call_ensures(is_shorthand_delimiter, (#[trigger] n[q],), false) {
        if j < t.len() { assert(n[j - i - 1] == t[j]); }
    }
    assert(dels(t, i) =~= seq![i] + dels(t, j));
    assert forall|v: Seq<usize>, x: usize, y: Seq<int>| #![trigger ints(v.push(x)), offs(t, y)] x == off(t, i) implies ints(v.push(x)) + offs(t, dels(t, j)) == ints(v) + offs(t, dels(t, i)) by {
        assert(ints(v.push(x)) + offs(t, dels(t, j)) =~= ints(v) + offs(t, dels(t, i)));
    }
    assert forall|w: Seq<WarningType>| #![trigger w.push(WarningType::EmptyShorthandItem)] j == i + 1 implies w.push(WarningType::EmptyShorthandItem) + rep_w(voids(t, j)) == w + rep_w(voids(t, i)) by {
        assert(w.push(WarningType::EmptyShorthandItem) + rep_w(voids(t, j)) =~= w + rep_w(voids(t, i)));
    }
}
proof fn lemma_dnext_is(t: Seq<char>, i: int)
    requires 0 <= i <= t.len()
    ensures ({ let k = dnext(t, i); i <= k <= t.len() && (k < t.len() ==> delim(t[k])) && forall|j: int| i <= j < k ==> !delim(#[trigger] t[j]) })
    decreases t.len() - i
{ if i < t.len() { lemma_dnext_is(t, i + 1); } }

/// The block style, in front of the first delimiter.
proof fn lemma_style(t: Seq<char>)
    ensures ({
        let j = dnext(t, 0);
        &&& 0 <= j <= t.len() && (j < t.len() ==> delim(t[j])) && voids(t, 0) == voids(t, j)
        &&& (t.len() > 0 ==> (j > 0 <==> !delim(t[0])))
        &&& (j == 0 ==> cuts(t) == dels(t, 0))
        &&& (forall|k: int| #[trigger] yes_or_end(is_shorthand_delimiter, t, k) ==> k == j)
        &&& (forall|s: Span, r: Span| #![trigger part(s, r, off(t, j), sb(s).len() as int)] s.data@ == t && part(s, r, off(t, j), sb(s).len() as int) ==> r.data@ == t.skip(j) && r.offset == s.offset + off(t, j))
        &&& (forall|s: Span, r: Span| #![trigger part(s, r, 0, off(t, j))] s.data@ == t && part(s, r, 0, off(t, j)) ==> r.data@ == t.take(j))
        &&& (forall|n: int| #[trigger] run(encode_utf8(t.take(j)), sp_tab(), n) ==> n == off(t, sp_lead(t.take(j))))
        &&& (forall|v: Seq<usize>, x: usize| #![trigger v.push(x)] v.len() == 0 && x == off(t, sp_lead(t.take(j))) && j > 0 ==> ints(v.push(x)) + offs(t, dels(t, j)) == offs(t, cuts(t)))
        &&& off(t, 0) == 0 && t.skip(0) == t && offs(t, dels(t, t.len() as int)) == Seq::<int>::empty() && rep_w(voids(t, t.len() as int)) == Seq::<WarningType>::empty()
    }),
{
    let j = dnext(t, 0);
    lemma_dnext_is(t, 0);
    lemma_dnext(t, 0, j);
    lemma_off(t, 0); lemma_off(t, j);
    assert(t.skip(0) =~= t);
    if t.len() > 0 && j == 0 { }
    assert forall|k: int| #[trigger] yes_or_end(is_shorthand_delimiter, t, k) implies k == j by { lemma_dnext(t, 0, k); }
    assert forall|s: Span, r: Span| #![trigger part(s, r, off(t, j), sb(s).len() as int)] s.data@ == t && part(s, r, off(t, j), sb(s).len() as int) implies r.data@ == t.skip(j) && r.offset == s.offset + off(t, j) by { lemma_tail(s, j); }
    assert forall|s: Span, r: Span| #![trigger part(s, r, 0, off(t, j))] s.data@ == t && part(s, r, 0, off(t, j)) implies r.data@ == t.take(j) by { lemma_head(s, j); }
    let u = t.take(j);
    assert forall|n: int| #[trigger] run(encode_utf8(u), sp_tab(), n) implies n == off(t, sp_lead(u)) by {
        lemma_run_is(u, n); lemma_sp_lead(u);
        assert(u.take(sp_lead(u)) =~= t.take(sp_lead(u)));
    }
    assert forall|v: Seq<usize>, x: usize| #![trigger v.push(x)] v.len() == 0 && x == off(t, sp_lead(u)) && j > 0 implies ints(v.push(x)) + offs(t, dels(t, j)) == offs(t, cuts(t)) by {
        assert(ints(v.push(x)) + offs(t, dels(t, j)) =~= offs(t, cuts(t)));
    }
    if j == 0 { assert(cuts(t) =~= dels(t, 0)); }
    assert(offs(t, dels(t, t.len() as int)) =~= Seq::empty());
    assert(rep_w(voids(t, t.len() as int)) =~= Seq::empty());
}

//@fn attributes/element_attribute.rs | is_shorthand_delimiter
//@ spec:
    ensures r == delim(c)
//@end

//@fn attributes/element_attribute.rs | parse_shorthand_items
//@ spec:
    ensures
        ints(r@) == offs(source@, cuts(source@)),
        final(warnings)@ == old(warnings)@ + rep_w(voids(source@, 0)),
//@ start:
    let ghost t = source@;
    let ghost w0 = warnings@;
    proof { lemma_style(t); }
//@ loop 0:
    invariant
        wf(span), t == source@, span.data@.len() <= t.len(), span.data@ == t.skip(t.len() - span.data@.len()), span.offset == off(t, t.len() - span.data@.len()),
        span.data@.len() > 0 ==> delim(span.data@[0]),
        ints(shorthand_item_indices@) + offs(t, dels(t, t.len() - span.data@.len())) == offs(t, cuts(t)),
        warnings@ + rep_w(voids(t, t.len() - span.data@.len())) == w0 + rep_w(voids(t, 0)),
    decreases span.data@.len()
//@ loop 0 start:
    proof { lemma_item(t, t.len() - span.data@.len(), span); }
//@end
