// --- C16: attribute entries ------------------------------------------------------------
/// What `starts_with` looks for.
trait VpHead: Sized { spec fn okh(self) -> bool; spec fn heads(self, b: Seq<u8>) -> bool; }
impl VpHead for char { spec fn okh(self) -> bool { true } spec fn heads(self, b: Seq<u8>) -> bool { at_pat(b, enc(self), 0) } }
impl VpHead for &str { spec fn okh(self) -> bool { true } spec fn heads(self, b: Seq<u8>) -> bool { at_pat(b, self.spec_bytes(), 0) } }
impl VpHead for [char; 2] { spec fn okh(self) -> bool { (self@[0] as u32) < 128 && (self@[1] as u32) < 128 } spec fn heads(self, b: Seq<u8>) -> bool { b.len() > 0 && (b[0] == self@[0] as u8 || b[0] == self@[1] as u8) } }
trait VpStarts { spec fn hd(&self) -> Seq<u8>; fn st_starts_with<P: VpHead>(&self, p: P) -> (r: bool) requires p.okh() ensures r == p.heads(self.hd()); }
impl VpStarts for str { spec fn hd(&self) -> Seq<u8> { self.spec_bytes() } #[verifier::external_body] fn st_starts_with<P: VpHead>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl VpStarts for Span<'_> { spec fn hd(&self) -> Seq<u8> { sb(*self) } fn st_starts_with<P: VpHead>(&self, p: P) -> (r: bool) { self.data.st_starts_with(p) } }

/// A text without the `c`s it starts with; without those it ends with.
spec fn tl(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { tl(s.skip(1), c) } else { s } }
spec fn tr(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { tr(s.drop_last(), c) } else { s } }
trait VpTrims {
    spec fn tc(&self) -> Seq<char>;
    fn ch_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == tl(self.tc(), c);
    fn ch_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == tr(self.tc(), c);
    fn ch_strip_suffix(&self, p: &str) -> (r: Option<&str>) ensures (r is Some) == ends(self.tc(), p@), r is Some ==> (r->0)@ == self.tc().take(self.tc().len() - p@.len());
    fn vp_lines(&self) -> (r: VpLines<'_>) ensures r.l() == lines_of(self.tc());
}
impl VpTrims for str {
    spec fn tc(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn ch_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn ch_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn ch_strip_suffix(&self, p: &str) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vp_lines(&self) -> (r: VpLines<'_>) { unimplemented!() }
}
/// `str::lines`: a line ends at a line feed, which (with a carriage return before it) is not part of it.
#[verifier::external_body] struct VpLines<'a> { x: &'a str }
impl<'a> VpLines<'a> { uninterp spec fn l(&self) -> Seq<Seq<char>>; #[verifier::external_body] fn collect(self) -> (r: Vec<&'a str>) ensures txts(r@) == self.l() { unimplemented!() } }
spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
spec fn to_lf(s: Seq<char>) -> int { run_c(s, |c: char| c != '\n') }
spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if 0 <= to_lf(s) < s.len() { seq![no_cr(s.take(to_lf(s)))] + lines_of(s.skip(to_lf(s) + 1)) } else { seq![s] }
}
/// `[String]::join("")`
spec fn flat(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + l.last() } }
trait VpConcat { spec fn ps(&self) -> Seq<Seq<char>>; fn vp_concat(&self, sep: &str) -> (r: String) requires sep@.len() == 0 ensures r@ == flat(self.ps()); }
impl VpConcat for Vec<String> { spec fn ps(&self) -> Seq<Seq<char>> { views(self@) } #[verifier::external_body] fn vp_concat(&self, sep: &str) -> (r: String) { unimplemented!() } }
trait VpBox { spec fn bs(&self) -> Seq<char>; fn vp_into_boxed_str(self) -> (r: Box<str>) ensures r@ == self.bs(); }
impl VpBox for String { spec fn bs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_into_boxed_str(self) -> (r: Box<str>) { unimplemented!() } }
/// `enumerate` and `map` over a slice.
impl<'a, T> VpIt<'a, T> { #[verifier::external_body] fn vp_enumerate(self) -> (r: VpItEnum<'a, T>) requires self.k() == 0 ensures r.s() == self.s() { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VpItEnum<'a, T> { x: &'a [T] }
impl<'a, T> VpItEnum<'a, T> {
    uninterp spec fn s(&self) -> Seq<T>;
    #[verifier::external_body]
    fn vp_map<U, F: Fn((usize, &'a T)) -> U>(self, f: F) -> (r: VpGen<U>)
        requires forall|i: usize| i < self.s().len() ==> f.requires(((i, &#[trigger] self.s()[i as int]),))
        ensures r.s().len() == self.s().len(), forall|i: usize| i < r.s().len() ==> f.ensures(((i, &self.s()[i as int]),), #[trigger] r.s()[i as int])
    { unimplemented!() }
}
/// (The unit `strs` proves this of `CowStr`.)
//@assume strings.rs | CowStr::into_string
//@ spec:
    ensures r@ == self.t()
//@end
//@fn content/content.rs | From<Span<'src>> for Content::from
//@ impl: impl<'src> Content<'src>
//@ spec:
    ensures r.original == span, text(r) == span.data@
//@end
impl<'a> CowStr<'a> { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) ensures r.t() == s@ { unimplemented!() } }

// --- values over several lines ---------------------------------------------------------
/// What line `i` of a value contributes, of lines `0..=last`.
spec fn bare_line(i: int, s: Seq<char>) -> Seq<char> { tr(tr(tr(tl(if i > 0 { tl(s, ' ') } else { s }, '\r'), ' '), '\\'), ' ') }
spec fn piece(i: int, last: int, s: Seq<char>) -> Seq<char> {
    let y = bare_line(i, s);
    if i == last { y } else if ends(y, seq![' ', '+']) { tr(y.take(y.len() - 2), ' ') + seq!['\n'] } else { y + seq![' '] }
}
spec fn pieces(l: Seq<Seq<char>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| piece(i, l.len() - 1, l[i])) }
/// A value's text: with its continuation lines joined.
spec fn joined(s: Seq<char>) -> Seq<char> {
    if s.contains('\n') || (s.len() > 0 && s.last() == '\\') { flat(pieces(lines_of(s))) } else { s }
}
proof fn lemma_lines_some(s: Seq<char>)
    ensures s.len() > 0 ==> lines_of(s).len() > 0
{}
/// Two lines are joined by one space, or by a line break if the first has ` + \`.
proof fn lemma_join_two(a: Seq<char>, b: Seq<char>)
    requires !a.contains('\n'), !b.contains('\n'), b.len() > 0
    ensures
        joined(a + seq!['\n'] + b) =~= (if ends(bare_line(0, no_cr(a)), seq![' ', '+']) { tr(bare_line(0, no_cr(a)).take(bare_line(0, no_cr(a)).len() - 2), ' ') + seq!['\n'] } else { bare_line(0, no_cr(a)) + seq![' '] }) + bare_line(1, b),
{
    let s = a + seq!['\n'] + b;
    let q = |c: char| c != '\n';
    lemma_run_c(s, q); lemma_run_c(b, q);
    let n = run_c(s, q);
    assert(s[a.len() as int] == '\n');
    if n < a.len() { assert(s[n] == a[n]); assert(a.contains(a[n])); }
    assert(n == a.len());
    assert(s.contains('\n'));
    assert(s.take(n) =~= a);
    assert(s.skip(n + 1) =~= b);
    if run_c(b, q) < b.len() { assert(b.contains(b[run_c(b, q)])); }
    assert(lines_of(b) =~= seq![b]);
    let l = lines_of(s);
    assert(l =~= seq![no_cr(a), b]);
    let p = pieces(l);
    assert(p =~= seq![piece(0, 1, no_cr(a)), piece(1, 1, b)]);
    assert(p.drop_last() =~= seq![piece(0, 1, no_cr(a))]);
    assert(p.drop_last().drop_last() =~= Seq::<Seq<char>>::empty());
    reveal_with_fuel(flat, 3);
    assert(flat(p.drop_last()) =~= piece(0, 1, no_cr(a)));
}
/// `A \` and an indented `B` give `A B`.
proof fn lemma_join_plain(a: Seq<char>, k: nat, b: Seq<char>)
    requires !a.contains('\n'), a.len() > 0, a[0] != '\r', a.last() != ' ', a.last() != '\\', !ends(a, seq![' ', '+']),
        !b.contains('\n'), b.len() > 0, b[0] != ' ', b[0] != '\r', b.last() != ' ', b.last() != '\\'
    ensures joined(a + seq![' ', '\\'] + seq!['\n'] + Seq::new(k, |i: int| ' ') + b) =~= a + seq![' '] + b
{
    let x = a + seq![' ', '\\'];
    let y = Seq::new(k, |i: int| ' ') + b;
    assert(a + seq![' ', '\\'] + seq!['\n'] + Seq::new(k, |i: int| ' ') + b =~= x + seq!['\n'] + y);
    assert(!x.contains('\n')) by { if x.contains('\n') { let i = choose|i: int| 0 <= i < x.len() && x[i] == '\n'; if i < a.len() { assert(a.contains(a[i])); } } }
    assert(!y.contains('\n')) by { if y.contains('\n') { let i = choose|i: int| 0 <= i < y.len() && y[i] == '\n'; if i >= k { assert(b.contains(b[i - k])); } } }
    lemma_join_two(x, y);
    assert(no_cr(x) == x);
    assert(tl(x, '\r') == x) by { assert(x[0] == a[0]); }
    assert(tr(x, ' ') == x);
    assert(x.drop_last() =~= a + seq![' ']);
    assert((a + seq![' ']).drop_last() =~= a);
    assert(tr(x, '\\') == a + seq![' ']) by { assert(tr(x, '\\') == tr(x.drop_last(), '\\')); }
    assert(tr(a + seq![' '], ' ') == a) by { assert(tr(a + seq![' '], ' ') == tr(a, ' ')); }
    assert(bare_line(0, x) == a);
    lemma_tl_spaces(k, b);
    assert(bare_line(1, y) == b);
}
proof fn lemma_tl_spaces(k: nat, b: Seq<char>)
    requires b.len() > 0, b[0] != ' '
    ensures tl(Seq::new(k, |i: int| ' ') + b, ' ') == b
    decreases k
{
    let y = Seq::new(k, |i: int| ' ') + b;
    if k > 0 {
        lemma_tl_spaces((k - 1) as nat, b);
        assert(y.skip(1) =~= Seq::new((k - 1) as nat, |i: int| ' ') + b);
    } else { assert(y =~= b); }
}

//@type document/attribute.rs | InterpretedValue
//@type document/attribute.rs | Attribute
enum Val { Text(Seq<char>), Set, Unset }
spec fn val(v: InterpretedValue) -> Val {
    match v { InterpretedValue::Value(s) => Val::Text(s@), InterpretedValue::Set => Val::Set, InterpretedValue::Unset => Val::Unset }
}
/// A value is its text, its lines joined, with the substitutions of the header.
spec fn value_of(s: Seq<char>, p: Parser) -> Seq<char> { outcome(SubstitutionGroup::Header, joined(s), p, None) }

//@fn document/attribute.rs | InterpretedValue::from_raw_value
//@ spec:
    ensures val(r) == Val::Text(value_of(raw_value.data@, *parser))
//@ start:
    proof {
        assert(!steps_of(SubstitutionGroup::Header).contains(Step::Callouts));
        assert forall|p: Seq<char>| p.len() == 1 implies #[trigger] ends(raw_value.data@, p) == (raw_value.data@.len() > 0 && raw_value.data@.last() == p[0]) by { let d = raw_value.data@; if d.len() > 0 { assert(d.skip(d.len() - 1) =~= seq![d.last()]); assert(p =~= seq![p[0]]); } }
    }
//@ after let lines:
    proof { assert(txts(lines@).len() == lines@.len()); if data@.contains('\n') { assert(data@.len() > 0); } }
//@ closure 0 params: __p: (usize, &&str)
//@ closure 0 bind: let (count, line) = __p;
//@ closure 0:
    -> (__r: String) ensures __r@ == piece(__p.0 as int, last_count as int, (*__p.1)@)
//@ before content.rendered =:
    proof { assert(views(value@) =~= pieces(lines_of(data@))); }
//@end

// --- entries ---------------------------------------------------------------------------
spec fn nm() -> spec_fn(u8) -> bool { |b: u8| (97 <= b <= 122) || (65 <= b <= 90) || (48 <= b <= 57) || b == 95 || b == 45 }
/// How many bytes from `i` on are such.
spec fn nrun(b: Seq<u8>, i: int, f: spec_fn(u8) -> bool) -> int decreases b.len() - i { if 0 <= i < b.len() && f(b[i]) { 1 + nrun(b, i + 1, f) } else { 0 } }
spec fn at(b: Seq<u8>, i: int) -> int { if 0 <= i < b.len() { b[i] as int } else { -1 } }
/// The text of the entry: its line, with the lines that it goes on to.
spec fn entry_len(b: Seq<u8>) -> int { item_len(b.subrange(0, cont_end(b))) }
/// Where its name starts and ends, and where the colon after it is.
spec fn e_a(l: Seq<u8>) -> int { if at(l, 1) == 33 { 2 } else { 1 } }
spec fn e_k(l: Seq<u8>) -> int { e_a(l) + nrun(l, e_a(l), nm()) }
spec fn e_c(l: Seq<u8>) -> int { if e_a(l) == 1 && at(l, e_k(l)) == 33 { e_k(l) + 1 } else { e_k(l) } }
spec fn e_v(l: Seq<u8>) -> int { e_c(l) + 1 + nrun(l, e_c(l) + 1, sp_tab()) }
spec fn is_entry(l: Seq<u8>) -> bool {
    &&& at(l, 0) == 58
    &&& e_k(l) > e_a(l) && l[e_a(l)] != 45
    &&& at(l, e_c(l)) == 58
    &&& (e_c(l) + 1 == l.len() || at(l, e_c(l) + 1) == 32 || at(l, e_c(l) + 1) == 9)
}
proof fn lemma_nrun(b: Seq<u8>, i: int, f: spec_fn(u8) -> bool, n: int)
    requires 0 <= i <= b.len(), 0 <= n, i + n <= b.len(), forall|j: int| i <= j < i + n ==> f(#[trigger] b[j]), i + n < b.len() ==> !f(b[i + n])
    ensures nrun(b, i, f) == n
    decreases n
{ if n > 0 { lemma_nrun(b, i + 1, f, n - 1); } }
/// A name's characters are its bytes.
proof fn lemma_name(s: Seq<char>, k: int)
    requires word(s, id2(), un2(), k)
    ensures run(encode_utf8(s), nm(), off(s, k)), off(s, k) == k, k > 0, s[0] != '-', encode_utf8(s)[0] != 45
{
    assert forall|i: int| 0 <= i < k implies (#[trigger] s[i] as u32) < 128 && nm()(s[i] as u8) by { if i == 0 {} else { assert(un2()(s[i])); } }
    lemma_run(s, nm(), k);
    lemma_off(s, k); lemma_first_byte(s);
}
proof fn lemma_name_at(l: Span, t: Span, a: int)
    requires wf(t), part(l, t, a, sb(l).len() as int)
    ensures
        t.data@.len() > 0 && id2()(t.data@[0]) ==> nrun(sb(l), a, nm()) > 0 && sb(l)[a] != 45,
        !(t.data@.len() > 0 && id2()(t.data@[0])) ==> nrun(sb(l), a, nm()) == 0 || sb(l)[a] == 45,
        forall|i: Span, u: Span| #[trigger] word_split(t, i, u, id2(), un2()) ==> wf(i) && wf(u) && sb(i).len() == nrun(sb(l), a, nm()) && part(l, i, a, a + nrun(sb(l), a, nm())) && part(l, u, a + nrun(sb(l), a, nm()), sb(l).len() as int),
{
    let n = sb(l).len() as int;
    assert forall|i: Span, u: Span| #[trigger] word_split(t, i, u, id2(), un2()) implies wf(i) && wf(u) && sb(i).len() == nrun(sb(l), a, nm()) && part(l, i, a, a + nrun(sb(l), a, nm())) && part(l, u, a + nrun(sb(l), a, nm()), n) by {
        let k = choose|k: int| word(t.data@, id2(), un2(), k) && sb(i).len() == #[trigger] off(t.data@, k);
        lemma_name(t.data@, k);
        lemma_nrun_part(l, t, a, nm(), k);
        lemma_part_part(l, t, i, a, n, 0, k);
        lemma_part_part(l, t, u, a, n, k, n - a);
    }
    lemma_off(t.data@, t.data@.len() as int);
    if t.data@.len() > 0 {
        let c = t.data@[0];
        lemma_first_byte(t.data@);
        assert(sb(t)[0] == sb(l)[a]);
        if id2()(c) { assert(nm()(sb(l)[a])); nrun_pos(sb(l), a); }
        else if (c as u32) < 128 { assert(nm()(sb(l)[a]) ==> c == '-'); }
    } else { assert(sb(t) =~= Seq::empty()) by { lemma_enc_pos(t.data@); reveal_with_fuel(encode_utf8, 2); assert(t.data@ =~= Seq::empty()); } }
}
proof fn nrun_pos(b: Seq<u8>, a: int)
    requires 0 <= a < b.len(), nm()(b[a])
    ensures nrun(b, a, nm()) > 0
{ nrun_nonneg(b, a + 1, nm()); }
proof fn nrun_nonneg(b: Seq<u8>, a: int, f: spec_fn(u8) -> bool)
    ensures nrun(b, a, f) >= 0
    decreases b.len() - a
{ if 0 <= a < b.len() && f(b[a]) { nrun_nonneg(b, a + 1, f); } }
proof fn lemma_nrun_part(l: Span, t: Span, a: int, f: spec_fn(u8) -> bool, k: int)
    requires part(l, t, a, sb(l).len() as int), run(sb(t), f, k)
    ensures nrun(sb(l), a, f) == k
{
    assert forall|j: int| a <= j < a + k implies f(#[trigger] sb(l)[j]) by { assert(sb(t)[j - a] == sb(l)[j]); }
    if a + k < sb(l).len() { assert(sb(t)[k] == sb(l)[a + k]); }
    lemma_nrun(sb(l), a, f, k);
}
/// The first byte of a part.
proof fn lemma_head_at(l: Span, t: Span, a: int)
    requires part(l, t, a, sb(l).len() as int)
    ensures
        at(sb(t), 0) == at(sb(l), a), sb(t).len() == sb(l).len() - a,
        forall|c: char| (c as u32) < 128 ==> (#[trigger] at_pat(sb(t), enc(c), 0) <==> at(sb(l), a) == c as u8),
        at_pat(sb(t), ":".spec_bytes(), 0) <==> at(sb(l), a) == 58,
        ":".spec_bytes() =~= seq![58u8],
        at(sb(t), 0) == 58 || at(sb(t), 0) == 33 ==> bdy(sb(t), 1),
        forall|u: Span, z: int| #[trigger] part(t, u, z, sb(t).len() as int) ==> part(l, u, a + z, sb(l).len() as int),
{
    lemma_ascii_pats(t.data);
    lemma_lit(":"); reveal_strlit(":");
    assert(":".spec_bytes() =~= seq![58u8]);
    assert(sb(t).len() > 0 ==> sb(t).subrange(0, 1) =~= seq![sb(t)[0]]);
    assert(at_pat(sb(t), ":".spec_bytes(), 0) <==> at(sb(l), a) == 58);
    if at(sb(t), 0) == 58 || at(sb(t), 0) == 33 { lemma_ascii_bdy(t.data, 0); }
    assert forall|u: Span, z: int| #[trigger] part(t, u, z, sb(t).len() as int) implies part(l, u, a + z, sb(l).len() as int) by { lemma_part_part(l, t, u, a, sb(l).len() as int, z, sb(t).len() as int); }
}

proof fn lemma_trimmed(s: Span, after: Span, z: int)
    requires wf(s), part(s, after, z, sb(s).len() as int)
    ensures
        after.offset == s.offset + z, 0 <= z <= sb(s).len(), bdy(sb(s), z),
        forall|t: Span| #[trigger] part(s, t, 0, z) ==> t.data@ == decode_utf8(sb(s).subrange(0, z)),
        forall|t: Span, u: Span, m: int| #[trigger] part(s, t, 0, z) && #[trigger] part(t, u, 0, m) ==> part(s, u, 0, m),
{
    assert forall|t: Span| #[trigger] part(s, t, 0, z) implies t.data@ == decode_utf8(sb(s).subrange(0, z)) by { encode_utf8_decode_utf8(t.data@); assert(sb(t) =~= encode_utf8(t.data@)); }
    assert forall|t: Span, u: Span, m: int| #[trigger] part(s, t, 0, z) && #[trigger] part(t, u, 0, m) implies part(s, u, 0, m) by { lemma_part_part(s, t, u, 0, z, 0, m); }
}
proof fn lemma_runs(l: Seq<u8>)
    ensures nrun(l, 1, nm()) >= 0, nrun(l, 2, nm()) >= 0, 1 <= e_a(l) <= e_k(l) <= e_c(l) < e_v(l)
{ nrun_nonneg(l, 1, nm()); nrun_nonneg(l, 2, nm()); nrun_nonneg(l, e_c(l) + 1, sp_tab()); }

//@fn document/attribute.rs | Attribute::parse
//@ nolits
//@ attrs: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ spec:
    requires wf(source)
    ensures
        ({
            let b = sb(source);
            let n = entry_len(b);
            let l = b.subrange(0, n);
            (r is Some) == (0 < n <= b.len() && is_entry(l)) && (r is Some ==> {
                let i = (r->0).item;
                &&& wf((r->0).after) && part(source, (r->0).after, cont_end(b), b.len() as int)
                &&& wf(i.name) && part(source, i.name, e_a(l), e_k(l))
                &&& wf(i.source) && part(source, i.source, 0, sb(i.source).len() as int) && i.source.data@ == decode_utf8(b.subrange(0, cont_end(b))).take(trimmed(decode_utf8(b.subrange(0, cont_end(b)))) as int)
                // `:!name:` and `:name!:` unset the attribute, `:name:` sets it, and one with a value has that value.
                &&& (e_a(l) == 2 || e_c(l) > e_k(l)) ==> val(i.value) is Unset && i.value_source is None
                &&& (e_a(l) == 1 && e_c(l) == e_k(l) && e_c(l) + 1 == n) ==> val(i.value) is Set && i.value_source is None
                &&& (e_a(l) == 1 && e_c(l) == e_k(l) && e_c(l) + 1 < n) ==> i.value_source is Some && wf(i.value_source->0) && part(source, i.value_source->0, e_v(l), n)
                        && val(i.value) == Val::Text(value_of((i.value_source->0).data@, *parser))
            })
        }),
//@ start:
    hide(part); hide(decode_utf8); hide(valid_utf8); hide(encode_utf8); hide(cont_end); hide(item_len); hide(value_of); hide(nrun); hide(bdy); hide(word_split);
    let ghost src0 = source;
    proof { lemma_cont_end(sb(source)); lemma_part_self(source); }
//@ after let attr_line:
    let ghost l = attr_line.item;
    proof { lemma_part_facts(source, l, 0, entry_len(sb(source))); lemma_runs(sb(l)); lemma_part_self(l); lemma_head_at(l, l, 0); }
//@ after let colon:
    proof { lemma_head_at(l, colon.after, 1); lemma_ascii_pats(colon.after.data); }
//@ before let name =:
    proof { lemma_head_at(l, line, e_a(sb(l))); lemma_name_at(l, line, e_a(sb(l))); }
//@ after let name =:
    proof { lemma_head_at(l, name.after, e_k(sb(l))); }
//@ before let line = line.take_prefix:
    proof { lemma_head_at(l, line, e_c(sb(l))); }
//@ after let line = line.take_prefix:
    proof { lemma_head_at(l, line.after, e_c(sb(l)) + 1); }
//@ after let raw_value:
    proof {
        lemma_nrun_part(l, line.after, e_c(sb(l)) + 1, sp_tab(), sb(raw_value.item).len() as int);
        lemma_part_part(source, l, raw_value.after, 0, sb(l).len() as int, e_v(sb(l)), sb(l).len() as int);
    }
//@ before let (value, value_source):
    proof { assert(sb(l) == sb(source).subrange(0, entry_len(sb(source)))); assert(is_entry(sb(l))); lemma_part_part(source, l, name.item, 0, sb(l).len() as int, e_a(sb(l)), e_k(sb(l))); lemma_trimmed(source, attr_line.after, cont_end(sb(source))); }
//@end
proof fn lemma_part_facts(s: Span, t: Span, a: int, z: int)
    requires part(s, t, a, z)
    ensures 0 <= a <= z <= sb(s).len(), sb(t) == sb(s).subrange(a, z), sb(t).len() == z - a, t.offset == s.offset + a, bdy(sb(s), a), bdy(sb(s), z)
{}
//@fn document/attribute.rs | Attribute::name
//@ spec:
    ensures *r == self.name
//@end
//@fn document/attribute.rs | Attribute::raw_value
//@ spec:
    ensures r == self.value_source
//@end
//@fn document/attribute.rs | Attribute::value
//@ spec:
    ensures *r == self.value
//@end
//@fn document/attribute.rs | HasSpan for Attribute::span
//@ spec:
    ensures r == self.source
//@ impl: impl<'src> Attribute<'src>
//@end
//@fn document/attribute.rs | InterpretedValue::as_maybe_str
//@ spec:
    ensures (r is Some) == (val(*self) is Text), r is Some ==> val(*self) == Val::Text((r->0)@)
//@end
