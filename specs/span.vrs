// ---------------------------------------------------------------------------
// Spans
// ---------------------------------------------------------------------------
//@type span/mod.rs | Span derive=Clone,Copy
//@type span/matched_item.rs | MatchedItem derive=Clone,Copy

spec fn sb(s: Span) -> Seq<u8> { s.data.spec_bytes() }

/// Positions are counted from 1 and stay within the text, so they can't overflow.
spec fn wf(s: Span) -> bool {
    &&& 1 <= s.line <= s.offset + 1
    &&& 1 <= s.col <= s.offset + 1
    &&& s.offset + sb(s).len() <= isize::MAX
}

/// The span `t` is exactly the part `[a, z)` of the span `s`: its text, its byte
/// offset, and its line and column, as found by counting through the text before it.
spec fn part(s: Span, t: Span, a: int, z: int) -> bool {
    &&& 0 <= a <= z <= sb(s).len()
    &&& bdy(sb(s), a) && bdy(sb(s), z)
    &&& sb(t) =~= sb(s).subrange(a, z)
    &&& t.offset == s.offset + a
    &&& t.line == s.line + nl(sb(s).subrange(0, a))
    &&& t.col == col_after(s.col as int, sb(s).subrange(0, a))
}

/// The span `t` is exact for the document `d`.
spec fn exact(d: Seq<u8>, t: Span) -> bool {
    &&& t.offset + sb(t).len() <= d.len()
    &&& sb(t) =~= d.subrange(t.offset as int, t.offset + sb(t).len())
    &&& t.line == 1 + nl(d.subrange(0, t.offset as int))
    &&& t.col == col_after(1, d.subrange(0, t.offset as int))
}

/// A part of an exact span is exact: so any chain of span operations yields exact spans.
proof fn lemma_part_exact(d: Seq<u8>, s: Span, t: Span, a: int, z: int)
    requires exact(d, s), part(s, t, a, z)
    ensures exact(d, t)
{
    let p = d.subrange(0, s.offset as int);
    let q = sb(s).subrange(0, a);
    assert(d.subrange(0, s.offset + a) =~= p + q);
    lemma_nl_add(p, q);
    lemma_col_add(1, p, q);
    assert(sb(t) =~= d.subrange(t.offset as int, t.offset + sb(t).len()));
}

proof fn lemma_part_wf(s: Span, t: Span, a: int, z: int)
    requires wf(s), part(s, t, a, z)
    ensures wf(t)
{
    let q = sb(s).subrange(0, a);
    lemma_nl_bound(q);
    lemma_col_bound(s.col as int, q);
}

proof fn lemma_part_self(s: Span)
    ensures part(s, s, 0, sb(s).len() as int)
{
    assert(sb(s).subrange(0, 0) =~= Seq::empty());
    assert(sb(s).subrange(0, sb(s).len() as int) =~= sb(s));
    lemma_str_ends(s.data);
}

/// Parts compose.
proof fn lemma_part_part(s: Span, t: Span, u: Span, a: int, z: int, b: int, y: int)
    requires part(s, t, a, z), part(t, u, b, y)
    ensures part(s, u, a + b, a + y)
{
    let p = sb(s).subrange(0, a);
    let q = sb(t).subrange(0, b);
    assert(sb(s).subrange(0, a + b) =~= p + q);
    lemma_nl_add(p, q);
    lemma_col_add(s.col as int, p, q);
    assert(sb(u) =~= sb(s).subrange(a + b, a + y));
    if b < sb(t).len() { assert(sb(t)[b] == sb(s)[a + b]); }
}

/// Parts compose, for any spans.
proof fn lemma_parts()
    ensures forall|s: Span, t: Span, u: Span, a: int, z: int, b: int, y: int| #[trigger] part(s, t, a, z) && #[trigger] part(t, u, b, y) ==> part(s, u, a + b, a + y)
{
    assert forall|s: Span, t: Span, u: Span, a: int, z: int, b: int, y: int| #[trigger] part(s, t, a, z) && #[trigger] part(t, u, b, y) implies part(s, u, a + b, a + y) by { lemma_part_part(s, t, u, a, z, b, y); }
}

/// The same bytes are the same text.
proof fn lemma_views()
    ensures forall|a: &str, b: &str| (#[trigger] a.spec_bytes() == #[trigger] b.spec_bytes()) ==> a@ == b@
{ assert forall|a: &str, b: &str| (#[trigger] a.spec_bytes() == #[trigger] b.spec_bytes()) implies a@ == b@ by { lemma_view(a, b@); } }

/// The methods of `str` that spans reach through `Deref`.
impl<'src> Span<'src> {
    fn len(&self) -> (r: usize) ensures r == sb(*self).len() { self.data.len() }
    fn is_empty(&self) -> (r: bool) ensures r == (sb(*self).len() == 0) { self.data.is_empty() }
}
impl<'src> VpStr for Span<'src> {
    spec fn b(&self) -> Seq<u8> { self.data.spec_bytes() }
    spec fn c(&self) -> Seq<char> { self.data@ }
    spec fn ad(&self) -> int { addr(self.data) }
    fn vp_slice(&self, a: usize, z: usize) -> (r: &str) { self.data.vp_slice(a, z) }
    fn vp_slice_from(&self, a: usize) -> (r: &str) { self.data.vp_slice_from(a) }
    fn vp_slice_to(&self, z: usize) -> (r: &str) { self.data.vp_slice_to(z) }
    fn vp_slice_rng<R: VpRange>(&self, g: R) -> (r: &str) { self.data.vp_slice_rng(g) }
    fn vp_find<P: VpPat>(&self, p: P) -> (r: Option<usize>) { self.data.vp_find(p) }
    fn vp_contains<P: VpPat>(&self, p: P) -> (r: bool) { self.data.vp_contains(p) }
    fn vp_starts_with<P: VpPat>(&self, p: P) -> (r: bool) { self.data.vp_starts_with(p) }
    fn vp_ends_with<P: VpPat>(&self, p: P) -> (r: bool) { self.data.vp_ends_with(p) }
    fn vp_strip_prefix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { self.data.vp_strip_prefix(p) }
    fn vp_strip_suffix<P: VpPat>(&self, p: P) -> (r: Option<&str>) { self.data.vp_strip_suffix(p) }
    fn vp_trim_end_matches(&self, c: char) -> (r: &str) { self.data.vp_trim_end_matches(c) }
    fn vp_trim_start_matches(&self, c: char) -> (r: &str) { self.data.vp_trim_start_matches(c) }
    fn vp_trim_end(&self) -> (r: &str) { self.data.vp_trim_end() }
}

//@fn span/mod.rs | Span::new
//@ spec:
    ensures wf(r), r.data == data, exact(data.spec_bytes(), r)
//@ start:
    proof { axiom_str_len(data); assert(data.spec_bytes().subrange(0, 0) =~= Seq::empty()); assert(data.spec_bytes().subrange(0, data.spec_bytes().len() as int) =~= data.spec_bytes()); }
//@end
//@fn span/mod.rs | Span::line
//@ spec:
    ensures r == self.line
//@end
//@fn span/mod.rs | Span::col
//@ spec:
    ensures r == self.col
//@end
//@fn span/mod.rs | Span::byte_offset
//@ spec:
    ensures r == self.offset
//@end
//@fn span/mod.rs | Span::data
//@ spec:
    ensures r == self.data
//@end

/// Pointer arithmetic in `span/slice.rs`: how far `second` starts after `first`.
//@assume span/slice.rs | offset
//@ spec:
    requires addr(first) <= addr(second) <= addr(first) + isize::MAX
    ensures r == addr(second) - addr(first)
//@end

/// `i` is the index of the last line feed in `b`, if any.
spec fn last_nl(b: Seq<u8>, i: Option<usize>) -> bool {
    match i {
        None => nl(b) == 0,
        Some(i) => nl(b) > 0 && i < b.len() && b[i as int] == 10 && forall|j: int| i < j < b.len() ==> b[j] != 10,
    }
}

proof fn lemma_nl_none(b: Seq<u8>, p: int, z: int)
    requires 0 <= p <= z <= b.len(), forall|j: int| p <= j < z ==> b[j] != 10
    ensures nl(b.subrange(0, z)) == nl(b.subrange(0, p))
{
    assert(b.subrange(0, z) =~= b.subrange(0, p) + b.subrange(p, z));
    lemma_nl_add(b.subrange(0, p), b.subrange(p, z));
    lemma_nl_zero(b.subrange(p, z));
}

/// Reading on from `p` to the next line feed, at `i`.
proof fn lemma_nl_step(b: Seq<u8>, p: int, i: int)
    requires 0 <= p <= i < b.len(), b[i] == 10, forall|j: int| p <= j < i ==> b[j] != 10
    ensures nl(b.subrange(0, i + 1)) == nl(b.subrange(0, p)) + 1, i <= usize::MAX ==> last_nl(b.subrange(0, i + 1), Some(i as usize))
{
    lemma_nl_none(b, p, i);
    assert(b.subrange(0, i + 1).drop_last() =~= b.subrange(0, i));
}

//@fn span/slice.rs | Span::slice_internal
//@ spec:
    requires
        wf(*self),
        addr(self.data) <= addr(slice_data),
        ({ let a = addr(slice_data) - addr(self.data);
           a + slice_data.spec_bytes().len() <= sb(*self).len() && bdy(sb(*self), a) && bdy(sb(*self), a + slice_data.spec_bytes().len()) && slice_data.spec_bytes() =~= sb(*self).subrange(a, a + slice_data.spec_bytes().len()) }),
    ensures
        wf(r), r.data == slice_data,
        ({ let a = addr(slice_data) - addr(self.data); part(*self, r, a, a + slice_data.spec_bytes().len()) }),
//@ start:
    proof { assert(sb(*self).subrange(0, 0) =~= Seq::empty()); }
//@ loop 0:
    invariant
        0 <= __it0.pos() <= offset, __it0.hay() == sb(*self).subrange(0, offset as int), __it0.needle() == 10,
        lines_to_add == nl(sb(*self).subrange(0, __it0.pos())),
        lines_to_add <= __it0.pos(),
        last_nl(sb(*self).subrange(0, __it0.pos()), last_index),
    decreases __it0.hay().len() - __it0.pos()
//@ loop 0 start:
    proof {
        let p1 = __it0.pos() - 1;
        assert forall|j: int| p0 <= j < p1 implies sb(*self)[j] != 10 by { assert(__it0.hay()[j] != 10); }
        lemma_nl_step(sb(*self), p0, p1);
        lemma_nl_bound(__it0.hay());
    }
//@ loop 0 exit:
    proof {
        let n = __it0.hay().len() as int;
        let q = sb(*self).subrange(0, n);
        assert forall|j: int| p0 <= j < n implies sb(*self)[j] != 10 by { assert(__it0.hay()[j] != 10); }
        lemma_nl_none(sb(*self), p0, n);
        lemma_nl_bound(q);
        lemma_col_bound(self.col as int, q);
        if nl(q) == 0 { lemma_col_same_line(self.col as int, q); assert(q.subrange(0, n) =~= q); }
        assert forall|k: int| 0 <= k < n && #[trigger] q[k] == 10 && (forall|j: int| k < j < n ==> q[j] != 10) implies col_after(self.col as int, q) == 1 + nch(q.subrange(k + 1, n)) by {
            lemma_col_new_line(self.col as int, q, k);
        }
    }
//@ loop 0 before:
    let ghost p0 = __it0.pos();
//@ closure 0:
    -> (r: usize) requires v < usize::MAX ensures r == v + 1
//@end

// --- slicing ----------------------------------------------------------------

//@fn span/slice.rs | Span::slice
//@ range_params: 1
//@ spec:
    requires wf(*self), range.start <= range.end <= sb(*self).len(), bdy(sb(*self), range.start as int), bdy(sb(*self), range.end as int)
    ensures wf(r), part(*self, r, range.start as int, range.end as int)
//@end
//@fn span/slice.rs | Span::slice_from
//@ range_params: 1
//@ spec:
    requires wf(*self), range.start <= sb(*self).len(), bdy(sb(*self), range.start as int)
    ensures wf(r), part(*self, r, range.start as int, sb(*self).len() as int)
//@end
//@fn span/slice.rs | Span::slice_to
//@ range_params: 1
//@ spec:
    requires wf(*self), range.end <= sb(*self).len(), bdy(sb(*self), range.end as int)
    ensures wf(r), part(*self, r, 0, range.end as int)
//@end

/// `t` is the part of `s` at the place that its offset tells.
spec fn within(s: Span, t: Span) -> bool { part(s, t, t.offset - s.offset, t.offset - s.offset + sb(t).len()) }

/// `mi` splits `s` at `n`.
spec fn splits(s: Span, item: Span, after: Span, n: int) -> bool {
    part(s, item, 0, n) && part(s, after, n, sb(s).len() as int) && wf(item) && wf(after)
}

//@fn span/split.rs | Span::into_parse_result
//@ spec:
    requires wf(self), at_index <= sb(self).len() ==> bdy(sb(self), at_index as int)
    ensures splits(self, r.item, r.after, if at_index <= sb(self).len() { at_index as int } else { sb(self).len() as int })
//@end

/// `k` is the first character for which `p` answers yes.
spec fn first_yes<P: Fn(char) -> bool>(p: P, s: Seq<char>, k: int) -> bool {
    0 <= k < s.len() && p.ensures((s[k],), true) && forall|j: int| 0 <= j < k ==> p.ensures((#[trigger] s[j],), false)
}

/// … or the end of the text, if there is none.
spec fn yes_or_end<P: Fn(char) -> bool>(p: P, s: Seq<char>, k: int) -> bool {
    first_yes(p, s, k) || (k == s.len() && forall|j: int| 0 <= j < k ==> p.ensures((#[trigger] s[j],), false))
}

//@fn span/slice.rs | Span::position
//@ spec:
    requires forall|c: char| predicate.requires((c,))
    ensures
        r is Some ==> r->0 < sb(*self).len() && bdy(sb(*self), r->0 as int) && exists|k: int| first_yes(predicate, self.data@, k) && r->0 == off(self.data@, k),
        r is None ==> forall|j: int| 0 <= j < self.data@.len() ==> predicate.ensures((#[trigger] self.data@[j],), false),
//@ loop 0:
    invariant
        0 <= __it0.k() <= __it0.s().len(), __it0.s() == self.data@,
        forall|j: int| 0 <= j < __it0.k() ==> predicate.ensures((#[trigger] self.data@[j],), false),
        forall|c: char| predicate.requires((c,)),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof {
        let k = __it0.k() - 1;
        lemma_off(self.data@, k);
        if predicate.ensures((self.data@[k],), true) { assert(first_yes(predicate, self.data@, k)); }
    }
//@end

//@fn span/split.rs | Span::split_at_match_non_empty
//@ spec:
    requires wf(self), forall|c: char| predicate.requires((c,))
    ensures
        r is Some ==> splits(self, (r->0).item, (r->0).after, sb((r->0).item).len() as int) && sb((r->0).item).len() > 0
            && (exists|k: int| #[trigger] yes_or_end(predicate, self.data@, k) && sb((r->0).item).len() == off(self.data@, k)),
        r is None ==> self.data@.len() == 0 || predicate.ensures((self.data@[0],), true),
//@ start:
    proof { lemma_off(self.data@, self.data@.len() as int);
        assert forall|k: int| #[trigger] first_yes(predicate, self.data@, k) implies yes_or_end(predicate, self.data@, k) && (off(self.data@, k) == 0 <==> k == 0) by { lemma_off(self.data@, k); }
        if forall|j: int| 0 <= j < self.data@.len() ==> predicate.ensures((#[trigger] self.data@[j],), false) { assert(yes_or_end(predicate, self.data@, self.data@.len() as int)); } }
//@end

// --- taking characters ------------------------------------------------------

spec fn sp_tab() -> spec_fn(u8) -> bool { |b: u8| b == 32 || b == 9 }
spec fn sp_tab_nl() -> spec_fn(u8) -> bool { |b: u8| b == 32 || b == 9 || b == 10 }

proof fn lemma_ws_runs(s: Seq<char>)
    ensures
        forall|k: int| 0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> { let c = #[trigger] s[j]; c == ' ' || c == '\t' }) && (k < s.len() ==> s[k] != ' ' && s[k] != '\t')
            ==> run(encode_utf8(s), sp_tab(), #[trigger] off(s, k)),
        forall|k: int| 0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> { let c = #[trigger] s[j]; c == ' ' || c == '\t' || c == '\n' }) && (k < s.len() ==> s[k] != ' ' && s[k] != '\t' && s[k] != '\n')
            ==> run(encode_utf8(s), sp_tab_nl(), #[trigger] off(s, k)),
{
    assert forall|k: int| 0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> { let c = #[trigger] s[j]; c == ' ' || c == '\t' }) && (k < s.len() ==> s[k] != ' ' && s[k] != '\t')
            implies run(encode_utf8(s), sp_tab(), #[trigger] off(s, k)) by { lemma_run(s, sp_tab(), k); }
    assert forall|k: int| 0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> { let c = #[trigger] s[j]; c == ' ' || c == '\t' || c == '\n' }) && (k < s.len() ==> s[k] != ' ' && s[k] != '\t' && s[k] != '\n')
            implies run(encode_utf8(s), sp_tab_nl(), #[trigger] off(s, k)) by { lemma_run(s, sp_tab_nl(), k); }
}

/// `k` characters satisfy `p`, and the next one (if any) doesn't.
spec fn while_yes<P: Fn(char) -> bool>(p: P, s: Seq<char>, k: int) -> bool {
    0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> p.ensures((#[trigger] s[j],), true)) && (k < s.len() ==> p.ensures((s[k],), false))
}

/// Parts of a span by its characters.
proof fn lemma_tail(s: Span, k: int)
    requires 0 <= k <= s.data@.len()
    ensures forall|r: Span| #[trigger] part(s, r, off(s.data@, k), sb(s).len() as int) ==> r.data@ == s.data@.skip(k)
{ lemma_off(s.data@, k); assert forall|r: Span| #[trigger] part(s, r, off(s.data@, k), sb(s).len() as int) implies r.data@ == s.data@.skip(k) by { lemma_view(r.data, s.data@.skip(k)); } }
proof fn lemma_head(s: Span, k: int)
    requires 0 <= k <= s.data@.len()
    ensures forall|r: Span| #[trigger] part(s, r, 0, off(s.data@, k)) ==> r.data@ == s.data@.take(k)
{ lemma_off(s.data@, k); assert forall|r: Span| #[trigger] part(s, r, 0, off(s.data@, k)) implies r.data@ == s.data@.take(k) by { lemma_view(r.data, s.data@.take(k)); } }
/// How many characters at the start `q` holds for.
spec fn run_c(s: Seq<char>, q: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() > 0 && q(s[0]) { 1 + run_c(s.skip(1), q) } else { 0 } }
spec fn mark_c(q: spec_fn(char) -> bool) -> bool { true }
proof fn lemma_run_c(s: Seq<char>, q: spec_fn(char) -> bool)
    ensures ({ let n = run_c(s, q); 0 <= n <= s.len() && (forall|j: int| 0 <= j < n ==> q(#[trigger] s[j])) && (n < s.len() ==> !q(s[n])) })
    decreases s.len()
{
    if s.len() > 0 && q(s[0]) {
        lemma_run_c(s.skip(1), q);
        let n = run_c(s.skip(1), q);
        assert forall|j: int| 0 <= j < n + 1 implies q(#[trigger] s[j]) by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        if n < s.skip(1).len() { assert(s.skip(1)[n] == s[n + 1]); }
    }
}
/// `f` is cut after `k` characters.
spec fn takes(f: Span, item: Span, after: Span, k: int) -> bool { wf(item) && wf(after) && item.data@ == f.data@.take(k) && after.data@ == f.data@.skip(k) && 0 <= k <= f.data@.len() && item.offset == f.offset && after.offset == f.offset + off(f.data@, k) }

//@fn span/take.rs | Span::take_while
//@ spec:
    requires wf(self), forall|c: char| predicate.requires((c,))
    ensures
        splits(self, r.item, r.after, sb(r.item).len() as int),
        exists|k: int| while_yes(predicate, self.data@, k) && sb(r.item).len() == #[trigger] off(self.data@, k),
        forall|q: spec_fn(char) -> bool| #[trigger] mark_c(q) && (forall|c: char, o: bool| #[trigger] predicate.ensures((c,), o) ==> o == q(c)) ==> takes(self, r.item, r.after, run_c(self.data@, q)),
//@ closure 0:
    -> (__r: bool) requires predicate.requires((c,)) ensures predicate.ensures((c,), !__r)
//@ exit:
    lemma_off(self.data@, self.data@.len() as int);
    assert(sb(__vp_r.item).len() <= sb(self).len());
    if sb(__vp_r.item).len() == sb(self).len() {
        assert(off(self.data@, self.data@.len() as int) == sb(self).len());
    }
    assert(exists|k: int| while_yes(predicate, self.data@, k) && sb(__vp_r.item).len() == #[trigger] off(self.data@, k));
    assert forall|q: spec_fn(char) -> bool| #[trigger] mark_c(q) && (forall|c: char, o: bool| #[trigger] predicate.ensures((c,), o) ==> o == q(c)) implies takes(self, __vp_r.item, __vp_r.after, run_c(self.data@, q)) by {
        let k = choose|k: int| while_yes(predicate, self.data@, k) && sb(__vp_r.item).len() == #[trigger] off(self.data@, k);
        let n = run_c(self.data@, q);
        lemma_run_c(self.data@, q);
        if k < n { assert(q(self.data@[k])); } else if n < k { assert(predicate.ensures((self.data@[n],), true)); }
        lemma_head(self, k); lemma_tail(self, k);
    }
//@end

//@fn span/take.rs | Span::take_prefix
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == at_pat(sb(self), prefix.spec_bytes(), 0),
        r is Some ==> splits(self, (r->0).item, (r->0).after, prefix.spec_bytes().len() as int),
//@end

//@fn span/take.rs | Span::take_whitespace
//@ spec:
    requires wf(self)
    ensures splits(self, r.item, r.after, sb(r.item).len() as int), run(sb(self), sp_tab(), sb(r.item).len() as int)
//@ start:
    proof { lemma_ws_runs(self.data@); }
//@end

//@fn span/take.rs | Span::take_whitespace_with_newline
//@ spec:
    requires wf(self)
    ensures splits(self, r.item, r.after, sb(r.item).len() as int), run(sb(self), sp_tab_nl(), sb(r.item).len() as int)
//@ start:
    proof { lemma_ws_runs(self.data@); }
//@end

//@fn span/take.rs | Span::take_required_whitespace
//@ spec:
    requires wf(self)
    ensures
        r is Some ==> splits(self, (r->0).item, (r->0).after, sb((r->0).item).len() as int) && sb((r->0).item).len() > 0 && run(sb(self), sp_tab(), sb((r->0).item).len() as int),
        r is None ==> run(sb(self), sp_tab(), 0),
//@ start:
    proof { lemma_ws_runs(self.data@); }
//@end

//@fn span/discard.rs | Span::discard
//@ spec:
    requires wf(self), n <= sb(self).len() ==> bdy(sb(self), n as int)
    ensures wf(r), part(self, r, if n <= sb(self).len() { n as int } else { sb(self).len() as int }, sb(self).len() as int)
//@end

//@fn span/discard.rs | Span::discard_whitespace
//@ spec:
    requires wf(self)
    ensures wf(r), part(self, r, r.offset - self.offset, sb(self).len() as int), run(sb(self), sp_tab(), r.offset - self.offset)
//@end

//@fn span/discard.rs | Span::discard_all
//@ spec:
    requires wf(self)
    ensures wf(r), part(self, r, sb(self).len() as int, sb(self).len() as int)
//@end

// --- adjusting a match ------------------------------------------------------

/// A match: an item and what follows it, both parts of `s`.
spec fn mi_within(s: Span, item: Span, after: Span) -> bool { wf(item) && wf(after) && within(s, item) && within(s, after) }

//@fn span/matched_item.rs | MatchedItem::trim_after_start_matches
//@ impl: impl<'src> MatchedItem<'src, Span<'src>>
//@ spec:
    requires wf(self.after), wf(self.item), (c as u32) < 128
    ensures
        r.item == self.item, wf(r.after),
        ({ let n = if sb(self.after).len() > 0 && sb(self.after)[0] == c as u8 { 1int } else { 0 };
           part(self.after, r.after, n, sb(self.after).len() as int) }),
//@ start:
    proof { lemma_part_self(self.after); lemma_ascii_pats(self.after.data); }
//@end

//@fn span/matched_item.rs | MatchedItem::trim_item_end_matches
//@ impl: impl<'src> MatchedItem<'src, Span<'src>>
//@ spec:
    requires wf(self.after), wf(self.item), (c as u32) < 128
    ensures
        r.after == self.after, wf(r.item),
        ({ let n = sb(self.item).len(); part(self.item, r.item, 0, if n > 0 && sb(self.item)[n - 1] == c as u8 { n - 1 } else { n as int }) }),
//@ start:
    proof { lemma_part_self(self.item); lemma_ascii_pats(self.item.data); }
//@end

/// `n` is the length of `b` without its trailing spaces.
spec fn no_trailing(b: Seq<u8>, n: int) -> bool {
    0 <= n <= b.len() && (n > 0 ==> b[n - 1] != 32) && forall|i: int| n <= i < b.len() ==> b[i] == 32
}

//@fn span/matched_item.rs | MatchedItem::trim_item_trailing_spaces
//@ impl: impl<'src> MatchedItem<'src, Span<'src>>
//@ spec:
    requires wf(self.after), wf(self.item)
    ensures
        r.after == self.after, wf(r.item),
        part(self.item, r.item, 0, sb(r.item).len() as int),
        no_trailing(sb(self.item), sb(r.item).len() as int),
//@end

//@fn span/trim.rs | Span::trim_trailing_whitespace
//@ impl: impl<'src> Span<'src>
//@ spec:
    requires wf(*self)
    ensures
        wf(r), part(*self, r, 0, sb(r).len() as int),
        r.data@ == self.data@.take(trimmed(self.data@) as int),
//@ start:
    proof { lemma_views(); }
//@end

//@fn span/trim.rs | Span::trim_trailing_line_end
//@ impl: impl<'src> Span<'src>
//@ spec:
    requires wf(*self)
    ensures
        wf(r),
        ({ let b = sb(*self); let n = b.len();
           part(*self, r, 0, if n >= 2 && b[n - 2] == 13 && b[n - 1] == 10 { n - 2 } else if n >= 1 && b[n - 1] == 10 { n - 1 } else { n as int }) }),
//@ start:
    proof {
        lemma_part_self(*self);
        let b = sb(*self); let n = b.len() as int;
        lemma_ascii_pats(self.data);
        if n >= 2 { assert(b.subrange(n - 2, n) =~= seq![b[n - 2], b[n - 1]]); }
    }
//@end

// --- lines ------------------------------------------------------------------

/// The index of the first line feed, or the length of the text.
spec fn eol(b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 { 0 } else if b[0] == 10 { 0 } else { 1 + eol(b.skip(1)) }
}

proof fn lemma_eol(b: Seq<u8>)
    ensures 0 <= eol(b) <= b.len(), eol(b) < b.len() ==> b[eol(b)] == 10, forall|i: int| 0 <= i < eol(b) ==> b[i] != 10
    decreases b.len()
{
    if b.len() > 0 && b[0] != 10 {
        lemma_eol(b.skip(1));
        assert forall|i: int| 0 <= i < eol(b) implies b[i] != 10 by { if i > 0 { assert(b.skip(1)[i - 1] == b[i]); } }
    }
}

proof fn lemma_eol_is(b: Seq<u8>)
    ensures
        0 <= eol(b) <= b.len(), eol(b) < b.len() ==> b[eol(b)] == 10, forall|i: int| 0 <= i < eol(b) ==> b[i] != 10,
        forall|r: Option<usize>| #[trigger] found_at(b, enc('\n'), r) ==> eol(b) == if r is Some { r->0 as int } else { b.len() as int },
{
    lemma_eol(b);
    assert forall|r: Option<usize>| #[trigger] found_at(b, enc('\n'), r) implies eol(b) == if r is Some { r->0 as int } else { b.len() as int } by {
        lemma_enc_ascii('\n');
        assert forall|i: int| 0 <= i < b.len() implies (b[i] == 10 <==> #[trigger] at_pat(b, enc('\n'), i)) by {
            assert(b.subrange(i, i + 1) =~= seq![b[i]]);
            assert(enc('\n')[0] == 10);
        }
        match r {
            Some(i) => { if i < eol(b) { assert(at_pat(b, enc('\n'), i as int)); } if eol(b) < i { assert(at_pat(b, enc('\n'), eol(b))); } }
            None => { if eol(b) < b.len() { assert(at_pat(b, enc('\n'), eol(b))); } }
        }
    }
}

/// The line that `b` starts with, without its line end: the length of its text …
spec fn line_len(b: Seq<u8>) -> int { if eol(b) > 0 && b[eol(b) - 1] == 13 { eol(b) - 1 } else { eol(b) } }
/// … and where the next line starts.
spec fn next_line(b: Seq<u8>) -> int { if eol(b) < b.len() { eol(b) + 1 } else { b.len() as int } }

//@fn span/line.rs | Span::take_line
//@ spec:
    requires wf(self)
    ensures
        wf(r.item), wf(r.after),
        part(self, r.item, 0, line_len(sb(self))),
        part(self, r.after, next_line(sb(self)), sb(self).len() as int),
        sb(self).len() > 0 ==> next_line(sb(self)) > 0,
//@ start:
    proof {
        let b = sb(self);
        lemma_eol_is(b);
        lemma_ascii_pats(self.data);
        lemma_part_self(self);
        lemma_parts();
    }
//@end

/// The length of the first line's text without trailing spaces.
spec fn norm_len(b: Seq<u8>) -> int { spaces_off(b, line_len(b)) }
spec fn spaces_off(b: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if n <= b.len() && b[n - 1] == 32 { spaces_off(b, n - 1) } else { n }
}

proof fn lemma_spaces_off(b: Seq<u8>, n: int, k: int)
    requires 0 <= k <= n <= b.len(), k > 0 ==> b[k - 1] != 32, forall|i: int| k <= i < n ==> b[i] == 32
    ensures spaces_off(b, n) == k
    decreases n
{
    if k < n { lemma_spaces_off(b, n - 1, k); }
}

proof fn lemma_no_trailing(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len()
    ensures forall|k: int| #[trigger] no_trailing(b.subrange(0, n), k) ==> k == spaces_off(b, n)
{
    assert forall|k: int| #[trigger] no_trailing(b.subrange(0, n), k) implies k == spaces_off(b, n) by {
        let c = b.subrange(0, n);
        assert forall|i: int| k <= i < n implies b[i] == 32 by { assert(c[i] == 32); }
        if k > 0 { assert(c[k - 1] != 32); }
        lemma_spaces_off(b, n, k);
    }
}

//@fn span/line.rs | Span::take_normalized_line
//@ spec:
    requires wf(self)
    ensures
        wf(r.item), wf(r.after),
        part(self, r.item, 0, norm_len(sb(self))),
        part(self, r.after, next_line(sb(self)), sb(self).len() as int),
        sb(self).len() > 0 ==> next_line(sb(self)) > 0,
//@ start:
    proof { lemma_eol(sb(self)); lemma_parts(); lemma_no_trailing(sb(self), line_len(sb(self))); }
//@end

/// A line is blank if it holds nothing but white space.
spec fn blank_line(b: Seq<u8>) -> bool { blank_b(b.subrange(0, line_len(b))) }

//@fn span/line.rs | Span::take_empty_line
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == blank_line(sb(self)),
        r is Some ==> wf((r->0).item) && wf((r->0).after) && part(self, (r->0).item, 0, line_len(sb(self)))
            && part(self, (r->0).after, next_line(sb(self)), sb(self).len() as int) && (sb(self).len() > 0 ==> next_line(sb(self)) > 0),
//@ start:
    proof {
        assert forall|a: &str| decode_utf8(#[trigger] a.spec_bytes()) == a@ by { encode_utf8_decode_utf8(a@); }
        assert forall|a: &str| #[trigger] a.spec_bytes().len() == 0 <==> a@.len() == 0 by { lemma_enc_pos(a@); if a@.len() == 0 { assert(a@ =~= Seq::empty()); reveal_with_fuel(encode_utf8, 2); } }
    }
//@end

/// How much of `b` the blank lines at its start take.
spec fn skip_blank(b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 || !blank_line(b) || next_line(b) <= 0 || next_line(b) > b.len() { 0 } else { next_line(b) + skip_blank(b.skip(next_line(b))) }
}

//@fn span/line.rs | Span::discard_empty_lines
//@ spec:
    requires wf(self)
    ensures
        wf(r), part(self, r, r.offset - self.offset, sb(self).len() as int),
        r.offset - self.offset == skip_blank(sb(self)),
        sb(r).len() == 0 || !blank_line(sb(r)),
//@ start:
    proof { lemma_part_self(self); lemma_parts(); }
//@ loop 0:
    invariant
        wf(i), part(self, i, i.offset - self.offset, sb(self).len() as int),
        skip_blank(sb(self)) == i.offset - self.offset + skip_blank(sb(i)),
    decreases sb(i).len()
//@ loop 0 start:
    proof { lemma_eol(sb(i)); assert(sb(i).subrange(next_line(sb(i)), sb(i).len() as int) =~= sb(i).skip(next_line(sb(i)))); }
//@end

/// The line, without trailing spaces, ends in a backslash.
spec fn continues(b: Seq<u8>) -> bool { norm_len(b) > 0 && b[norm_len(b) - 1] == 92 }

proof fn lemma_norm(b: Seq<u8>)
    ensures 0 <= norm_len(b) <= line_len(b) <= eol(b) <= b.len()
{
    lemma_eol(b);
    lemma_spaces_bound(b, line_len(b));
}
proof fn lemma_spaces_bound(b: Seq<u8>, n: int)
    requires 0 <= n
    ensures 0 <= spaces_off(b, n) <= n
    decreases n
{ if n > 0 && n <= b.len() && b[n - 1] == 32 { lemma_spaces_bound(b, n - 1); } }

//@fn span/line.rs | Span::one_line_with_continuation
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == continues(sb(self)),
        r is Some ==> wf((r->0).item) && wf((r->0).after) && part(self, (r->0).item, 0, norm_len(sb(self)))
            && part(self, (r->0).after, next_line(sb(self)), sb(self).len() as int) && next_line(sb(self)) > 0,
//@ start:
    proof {
        assert forall|a: &str, i: int| #[trigger] at_pat(a.spec_bytes(), enc('\\'), i) <==> 0 <= i < a.spec_bytes().len() && a.spec_bytes()[i] == 92 by { lemma_ascii_pats(a); }
        lemma_norm(sb(self));
    }
//@end

/// Where the line that `b` starts with ends, when lines that end in a backslash go on.
spec fn cont_end(b: Seq<u8>) -> int decreases b.len() {
    if continues(b) && 0 < next_line(b) <= b.len() { next_line(b) + cont_end(b.skip(next_line(b))) } else { next_line(b) }
}

proof fn lemma_cont_end(b: Seq<u8>)
    ensures 0 <= cont_end(b) <= b.len()
    decreases b.len()
{
    lemma_eol(b);
    if continues(b) && 0 < next_line(b) <= b.len() { lemma_cont_end(b.skip(next_line(b))); }
}

/// The length of `b` without one line end, then without trailing spaces.
spec fn item_len(b: Seq<u8>) -> int {
    let n = b.len() as int;
    let n = if n > 0 && b[n - 1] == 10 { n - 1 } else { n };
    let n = if n > 0 && b[n - 1] == 13 { n - 1 } else { n };
    spaces_off(b, n)
}

//@fn span/line.rs | Span::take_line_with_continuation
//@ spec:
    requires wf(self)
    ensures
        ({ let n = item_len(sb(self).subrange(0, cont_end(sb(self))));
           (r is Some) == (n > 0) && (r is Some ==> wf((r->0).item) && wf((r->0).after) && part(self, (r->0).item, 0, n)
            && part(self, (r->0).after, cont_end(sb(self)), sb(self).len() as int) && cont_end(sb(self)) > 0) }),
//@ start:
    proof { lemma_part_self(self); lemma_parts(); lemma_eol(sb(self)); lemma_str_ends(self.data); lemma_cont_end(sb(self));
        lemma_spaces_eq(sb(self).subrange(0, cont_end(sb(self)))); }
//@ loop 0:
    invariant
        wf(mi.after), part(self, mi.after, mi.after.offset - self.offset, sb(self).len() as int),
        cont_end(sb(self)) == mi.after.offset - self.offset + cont_end(sb(mi.after)),
    decreases sb(mi.after).len()
//@ loop 0 start:
    proof { lemma_eol(sb(mi.after)); assert(sb(mi.after).subrange(next_line(sb(mi.after)), sb(mi.after).len() as int) =~= sb(mi.after).skip(next_line(sb(mi.after)))); }
//@end

/// Trimming a line feed, then a carriage return, then spaces.
proof fn lemma_spaces_eq(b: Seq<u8>)
    ensures
        forall|n: int, k: int| #![trigger no_trailing(b.subrange(0, n), k)] 0 <= n <= b.len() && no_trailing(b.subrange(0, n), k) ==> k == spaces_off(b, n),
{
    assert forall|n: int, k: int| #![trigger no_trailing(b.subrange(0, n), k)] 0 <= n <= b.len() && no_trailing(b.subrange(0, n), k) implies k == spaces_off(b, n) by { lemma_no_trailing(b, n); }
}
