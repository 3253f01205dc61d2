// --- blocks: what all kinds share ----------------------------------------------------------
//@type warnings.rs | WarningType
//@type warnings.rs | Warning
//@type warnings.rs | MatchAndWarnings
//@type blocks/is_block.rs | ContentModel derive=Clone,Copy,PartialEq,Eq,Structural
//@type blocks/metadata.rs | BlockMetadata
//@type blocks/raw_delimited.rs | RawDelimitedBlock
//@type blocks/compound_delimited.rs | CompoundDelimitedBlock

/// `str::split_at`, `split_at_checked`, `[u8]::split_at`; `chars().all`.
trait VpCut { spec fn cb(&self) -> Seq<u8>;
    fn vp_split_at(&self, n: usize) -> (r: (&str, &str)) requires bdy(self.cb(), n as int) ensures r.0.spec_bytes() =~= self.cb().subrange(0, n as int), r.1.spec_bytes() =~= self.cb().subrange(n as int, self.cb().len() as int);
    fn vp_split_at_checked(&self, n: usize) -> (r: Option<(&str, &str)>) ensures (r is Some) == bdy(self.cb(), n as int), r is Some ==> (r->0).0.spec_bytes() =~= self.cb().subrange(0, n as int) && (r->0).1.spec_bytes() =~= self.cb().subrange(n as int, self.cb().len() as int); }
impl VpCut for str { spec fn cb(&self) -> Seq<u8> { self.spec_bytes() } #[verifier::external_body] fn vp_split_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() } #[verifier::external_body] fn vp_split_at_checked(&self, n: usize) -> (r: Option<(&str, &str)>) { unimplemented!() } }
trait VpCutB { spec fn cbb(&self) -> Seq<u8>; fn vp_split_at(&self, n: usize) -> (r: (&[u8], &[u8])) requires n <= self.cbb().len() ensures r.0@ =~= self.cbb().subrange(0, n as int), r.1@ =~= self.cbb().subrange(n as int, self.cbb().len() as int); }
impl VpCutB for [u8] { spec fn cbb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_split_at(&self, n: usize) -> (r: (&[u8], &[u8])) { unimplemented!() } }
#[verifier::external_body] struct VpCh { x: usize }
impl VpCh {
    uninterp spec fn s(&self) -> Seq<char>;
    #[verifier::external_body]
    fn all<F: Fn(char) -> bool>(self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,))
        ensures r ==> forall|i: int| 0 <= i < self.s().len() ==> f.ensures((#[trigger] self.s()[i],), true), !r ==> exists|i: int| 0 <= i < self.s().len() && f.ensures((#[trigger] self.s()[i],), false)
    { unimplemented!() }
}
trait VpCharsOf { spec fn chs(&self) -> Seq<char>; fn vp_chars(&self) -> (r: VpCh) ensures r.s() == self.chs(); }
impl VpCharsOf for str { spec fn chs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_chars(&self) -> (r: VpCh) { unimplemented!() } }

/// Matching bytes against a constant.
#[verifier::external_body]
fn vp_eq_bytes<const N: usize>(a: &&[u8], b: &[u8; N]) -> (r: bool) ensures r == ((**a)@ =~= (*b)@) { unimplemented!() }

/// A line of four or more `c`.
spec fn rep4(l: Seq<u8>, c: u8) -> bool { l.len() >= 4 && forall|i: int| 0 <= i < l.len() ==> l[i] == c }
/// The lines that can open a block of text, and those that can open a block of blocks.
spec fn raw_delim(l: Seq<u8>) -> bool { rep4(l, 47) || rep4(l, 45) || rep4(l, 46) || rep4(l, 43) }
spec fn compound_delim(l: Seq<u8>) -> bool { l == seq![45u8, 45u8] || rep4(l, 61) || rep4(l, 42) || rep4(l, 95) }

/// A text consists of `c` only if its bytes do.
proof fn lemma_all_c(a: &str, c: char)
    requires (c as u32) < 128
    ensures (forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == c) <==> (forall|i: int| 0 <= i < a.spec_bytes().len() ==> #[trigger] a.spec_bytes()[i] == c as u8)
{
    let q = |d: char| d == c;
    let f = |b: u8| b == c as u8;
    lemma_run_c(a@, q);
    let k = run_c(a@, q);
    lemma_run(a@, f, k);
    lemma_off(a@, k);
    lemma_off(a@, a@.len() as int);
    assert(a.spec_bytes() =~= encode_utf8(a@));
    if k < a@.len() { lemma_off_next(a@, k); assert(!f(a.spec_bytes()[off(a@, k)])); }
}
proof fn lemma_rep4(l: Seq<u8>, c: u8)
    ensures rep4(l, c) <==> (l.len() >= 4 && l.subrange(0, 4) =~= seq![c, c, c, c] && forall|i: int| 0 <= i < l.len() - 4 ==> #[trigger] l.subrange(4, l.len() as int)[i] == c)
{
    if l.len() >= 4 && l.subrange(0, 4) =~= seq![c, c, c, c] && forall|i: int| 0 <= i < l.len() - 4 ==> #[trigger] l.subrange(4, l.len() as int)[i] == c {
        assert forall|i: int| 0 <= i < l.len() implies l[i] == c by { if i < 4 { assert(l.subrange(0, 4)[i] == c); } else { assert(l.subrange(4, l.len() as int)[i - 4] == c); } }
    }
}
/// What the tests on a delimiter's text mean.
proof fn lemma_delim(a: &str)
    ensures
        forall|c: char, t: &str| (c as u32) < 128 && #[trigger] t.spec_bytes() == a.spec_bytes().subrange(4, a.spec_bytes().len() as int) && a.spec_bytes().len() >= 4 && a.spec_bytes().subrange(0, 4) == #[trigger] seq4(c)
            ==> (rep4(a.spec_bytes(), c as u8) <==> forall|i: int| 0 <= i < t@.len() ==> #[trigger] t@[i] == c),
{
    assert forall|c: char, t: &str| (c as u32) < 128 && #[trigger] t.spec_bytes() == a.spec_bytes().subrange(4, a.spec_bytes().len() as int) && a.spec_bytes().len() >= 4 && a.spec_bytes().subrange(0, 4) == #[trigger] seq4(c)
        implies (rep4(a.spec_bytes(), c as u8) <==> forall|i: int| 0 <= i < t@.len() ==> #[trigger] t@[i] == c) by { lemma_all_c(t, c); lemma_rep4(a.spec_bytes(), c as u8); }
}
spec fn seq4(c: char) -> Seq<u8> { seq![c as u8, c as u8, c as u8, c as u8] }

//@fn blocks/raw_delimited.rs | RawDelimitedBlock::is_valid_delimiter
//@ spec:
    ensures r == raw_delim(sb(*line))
//@ start:
    proof { lemma_delim(line.data); assert("////".spec_bytes() =~= seq4('/')); assert("----".spec_bytes() =~= seq4('-')); assert("....".spec_bytes() =~= seq4('.')); assert("++++".spec_bytes() =~= seq4('+')); }
//@end
//@fn blocks/compound_delimited.rs | CompoundDelimitedBlock::is_valid_delimiter
//@ spec:
    ensures r == compound_delim(sb(*line))
//@ start:
    proof { lemma_delim(line.data); lemma_views(); assert("====".spec_bytes() =~= seq4('=')); assert("****".spec_bytes() =~= seq4('*')); assert("____".spec_bytes() =~= seq4('_')); }
//@end

//@include lineof.vrs

impl VpClone for Option<Attrlist<'_>> {
    spec fn same(&self, r: Self) -> bool { r == *self }
    /// The derived `Clone` gives an equal value.
    #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() }
}
//@include into.vrs
impl<'a> CowStr<'a> { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) ensures r.t() == s@ { unimplemented!() } }
//@fn content/content.rs | From<Span<'src>> for Content::from
//@ impl: impl<'src> Content<'src>
//@ spec:
    ensures r.original == span, text(r) == span.data@
//@end
impl<'a> VpInto<Content<'a>> for Span<'a> { spec fn io(self, r: Content<'a>) -> bool { r.original == self && text(r) == self.data@ } fn vp_into(self) -> (r: Content<'a>) { Content::from(self) } }

/// The block starts after its title, anchor and attributes, and goes on to the end of the text.
#[verifier::opaque]
spec fn headed(s: Span, b: Span) -> bool { b.offset > s.offset ==> sb(s).len() > 0 && (sb(s)[0] == 46 || sb(s)[0] == 91) }
spec fn meta_ok(m: BlockMetadata) -> bool {
    wf(m.source) && wf(m.block_start) && part(m.source, m.block_start, m.block_start.offset - m.source.offset, sb(m.source).len() as int)
        // If anything is above the block, it starts like a title or an attribute list.
        && headed(m.source, m.block_start)
}
spec fn opt_str(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }

proof fn lemma_part_facts(s: Span, t: Span, a: int, z: int)
    requires part(s, t, a, z)
    ensures 0 <= a <= z <= sb(s).len(), sb(t) == sb(s).subrange(a, z), sb(t).len() == z - a, t.offset == s.offset + a, bdy(sb(s), a), bdy(sb(s), z)
{}
proof fn lemma_lines(s: Span)
    ensures ({ let b = sb(s); 0 <= norm_len(b) <= b.len() && 0 <= next_line(b) <= b.len() && line_of(b) == b.subrange(0, norm_len(b)) && (b.len() > 0 ==> next_line(b) > 0) })
{ lemma_eol(sb(s)); lemma_norm(sb(s)); }
proof fn lemma_meta(m: BlockMetadata)
    requires meta_ok(m)
    ensures wf(m.source), wf(m.block_start), part(m.source, m.block_start, m.block_start.offset - m.source.offset, sb(m.source).len() as int), sb(m.source).len() == m.block_start.offset - m.source.offset + sb(m.block_start).len(), m.block_start.offset >= m.source.offset,
{}

/// Cutting `s` where `e` is, then taking off white space.
proof fn lemma_trimmed_at(s: Span, e: Span, k: int)
    requires part(s, e, k, k)
    ensures
        bdy(sb(s), e.offset - s.offset), e.offset - s.offset == k, 0 <= k <= sb(s).len(),
        forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int)
            ==> part(s, u, 0, sb(u).len() as int) && u.data@ == ({ let w = decode_utf8(sb(s).subrange(0, k)); w.take(trimmed(w) as int) }),
{
    assert forall|t: Span, u: Span, m: int, l: int| #[trigger] part(s, t, 0, m) && #[trigger] part(t, u, 0, l) && m == k && l == sb(u).len() && u.data@ == t.data@.take(trimmed(t.data@) as int)
            implies part(s, u, 0, sb(u).len() as int) && u.data@ == ({ let w = decode_utf8(sb(s).subrange(0, k)); w.take(trimmed(w) as int) }) by {
        lemma_part_part(s, t, u, 0, k, 0, l);
        encode_utf8_decode_utf8(t.data@);
    }
}
proof fn lemma_chosen(g: Seq<Step>, a: Option<Attrlist>)
    requires !g.contains(Step::Callouts)
    ensures !chosen(g, a).contains(Step::Callouts)
{
    if a is Some {
        let d = if style1(a->0) == Some("pass"@) { Seq::empty() } else { g };
        let e = named(a->0, "subs"@);
        if e is Some { lemma_no_callouts(Some(d), split(trim(ea_value(e->0)), ',')); }
    }
}
