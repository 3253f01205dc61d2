// --- C20: author and revision lines -----------------------------------------------------
/// `str::split_once`, `matches().count()`, `split` with a text.
spec fn not_c(c: char) -> spec_fn(char) -> bool { |d: char| d != c }
spec fn idx(s: Seq<char>, c: char) -> int { run_c(s, not_c(c)) }
spec fn count_c(s: Seq<char>, c: char) -> nat decreases s.len() { if s.len() == 0 { 0 } else { count_c(s.drop_last(), c) + if s.last() == c { 1nat } else { 0nat } } }
spec fn upto(s: Seq<char>, p: Seq<char>) -> Option<int> decreases s.len() { if starts(s, p) { Some(0int) } else if s.len() == 0 { None } else { match upto(s.skip(1), p) { Some(i) => Some(i + 1), None => None } } }
spec fn split_s(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    match upto(s, p) { Some(i) => if p.len() > 0 && 0 <= i && i + p.len() <= s.len() { seq![s.take(i)] + split_s(s.skip(i + p.len()), p) } else { seq![s] }, None => seq![s] }
}
spec fn run_c(s: Seq<char>, q: spec_fn(char) -> bool) -> int decreases s.len() { if s.len() > 0 && q(s[0]) { 1 + run_c(s.skip(1), q) } else { 0 } }
#[verifier::external_body] struct VpMatches { x: usize }
impl VpMatches { uninterp spec fn n(&self) -> nat; #[verifier::external_body] fn count(self) -> (r: usize) ensures r == self.n() { unimplemented!() } }
trait VpCuts {
    spec fn tt(&self) -> Seq<char>;
    fn vp_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures (r is Some) == (idx(self.tt(), c) < self.tt().len()), r is Some ==> (r->0).0@ == self.tt().take(idx(self.tt(), c)) && (r->0).1@ == self.tt().skip(idx(self.tt(), c) + 1);
    fn vp_matches(&self, c: char) -> (r: VpMatches) ensures r.n() == count_c(self.tt(), c);
    fn st_split(&self, p: &str) -> (r: VpParts) requires p@.len() > 0 ensures r.parts() == split_s(self.tt(), p@), r.k() == 0;
}
macro_rules! vp_cuts { ($t:ty) => { verus! {
impl VpCuts for $t {
    spec fn tt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vp_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vp_matches(&self, c: char) -> (r: VpMatches) { unimplemented!() }
    #[verifier::external_body] fn st_split(&self, p: &str) -> (r: VpParts) { unimplemented!() }
} } } }
vp_cuts!(str);
vp_cuts!(String);
impl VpCuts for Span<'_> {
    spec fn tt(&self) -> Seq<char> { self.data@ }
    fn vp_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { self.data.vp_split_once(c) }
    fn vp_matches(&self, c: char) -> (r: VpMatches) { self.data.vp_matches(c) }
    fn st_split(&self, p: &str) -> (r: VpParts) { self.data.st_split(p) }
}
//@assume span/mod.rs | Span::new
//@ spec:
    ensures r.data == data
//@end
//@fn content/content.rs | From<Span<'src>> for Content::from
//@ impl: impl<'src> Content<'src>
//@ spec:
    ensures r.original == span, text(r) == span.data@
//@end
//@fn content/content.rs | Content::rendered
//@ spec:
    ensures r@ == text(*self)
//@end
/// (The unit `strs` proves that a `CowStr` holds the text it is made from.)
impl<'a> CowStr<'a> { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) ensures r.t() == s@ { unimplemented!() } }

// --- the form of an author ---------------------------------------------------------------
//@pattern document/author.rs | AUTHOR | r#"(?x)^([a-zA-Z0-9_\p{L}\p{N}&\#;][a-zA-Z0-9_\p{L}\p{N}\-'.&\#;]*)(?:\ +([a-zA-Z0-9_\p{L}\p{N}&\#;][a-zA-Z0-9_\p{L}\p{N}\-'.&\#;]*))?(?:\ +([a-zA-Z0-9_\p{L}\p{N}&\#;][a-zA-Z0-9_\p{L}\p{N}\-'.&\#;]*))?(?:\ +<([^>]+)>)?$"#
struct AUTHOR;
/// Letters and numerals of any script (and no others).
uninterp spec fn letter(c: char) -> bool;
axiom fn axiom_letter(c: char) ensures letter(c) ==> !is_ws(c) && c != ' ' && c != '<' && c != '>' && c != '{' && c != '}', ascii_alnum(c) ==> letter(c);
spec fn w1() -> spec_fn(char) -> bool { |c: char| letter(c) || c == '_' || c == '&' || c == '#' || c == ';' }
spec fn w2() -> spec_fn(char) -> bool { |c: char| w1()(c) || c == '-' || c == '\'' || c == '.' }
spec fn sp() -> spec_fn(char) -> bool { |c: char| c == ' ' }
/// A word at `i`: where it ends.
spec fn a_word(s: Seq<char>, i: int) -> Option<int> { if 0 <= i < s.len() && w1()(s[i]) { Some(i + run_c(s.skip(i), w2())) } else { None } }
/// A word at `i`, after spaces: where it starts and ends.
spec fn next_word(s: Seq<char>, i: int) -> Option<(int, int)> {
    let j = i + run_c(s.skip(i), sp());
    if j > i { match a_word(s, j) { Some(e) => Some((j, e)), None => None } } else { None }
}
/// An address in angle brackets at `i`, after spaces.
spec fn address(s: Seq<char>, i: int) -> Option<(int, int)> {
    let j = i + run_c(s.skip(i), sp());
    let e = j + 1 + run_c(s.skip(j + 1), |c: char| c != '>');
    if j > i && j < s.len() && s[j] == '<' && e > j + 1 && e < s.len() { Some((j + 1, e)) } else { None }
}
/// One, two or three words, and an address: the words and the address.
struct Form { ghost first: Seq<char>, ghost second: Option<Seq<char>>, ghost third: Option<Seq<char>>, ghost email: Option<Seq<char>> }
spec fn sub(s: Seq<char>, o: Option<(int, int)>) -> Option<Seq<char>> { match o { Some((a, z)) => Some(s.subrange(a, z)), None => None } }
spec fn upto_end(o: Option<(int, int)>, i: int) -> int { match o { Some((a, z)) => z, None => i } }
spec fn form(s: Seq<char>) -> Option<Form> {
    match a_word(s, 0) {
        None => None,
        Some(e1) => {
            let b = next_word(s, e1);
            let e2 = upto_end(b, e1);
            let c = if b is Some { next_word(s, e2) } else { None };
            let e3 = upto_end(c, e2);
            let d = address(s, e3);
            let e4 = match d { Some((a, z)) => z + 1, None => e3 };
            if e4 == s.len() { Some(Form { first: s.take(e1), second: sub(s, b), third: sub(s, c), email: sub(s, d) }) } else { None }
        }
    }
}
impl VpRegex for AUTHOR { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { match form(h) { Some(f) => seq![Cap { s: 0, e: h.len() as int, g: seq![Some(h), Some(f.first), f.second, f.third, f.email] }], None => Seq::empty() } } }

//@type document/author.rs | Author
/// An author.
struct Au { ghost name: Seq<char>, ghost first: Seq<char>, ghost middle: Option<Seq<char>>, ghost last: Option<Seq<char>>, ghost email: Option<Seq<char>> }
spec fn ot(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn au(a: Author) -> Au { Au { name: a.name@, first: a.firstname@, middle: ot(a.middlename), last: ot(a.lastname), email: ot(a.email) } }
spec fn opt_au(o: Option<Author>) -> Option<Au> { match o { Some(a) => Some(au(a)), None => None } }
/// Underscores join words.
spec fn us(s: Seq<char>) -> Seq<char> { repl(s, '_', seq![' ']) }
spec fn us_opt(o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(s) => Some(us(s)), None => None } }
spec fn one_ref(s: Seq<char>) -> bool { starts(trim(s), seq!['{']) && ends(trim(s), seq!['}']) && count_c(s, '{') == 1 }
spec fn angles(s: Seq<char>) -> bool { s.contains('<') && s.contains('>') }
/// A part of an author line with attribute references replaced.
spec fn filled(s: Seq<char>, p: Parser) -> Seq<char> {
    let c = effect(Step::AttributeReferences, s, p, None);
    if !one_ref(s) && count_c(s, '{') > 1 && (angles(c) || (c.contains('&') && !"&amp;".within(c))) { effect(Step::SpecialCharacters, c, p, None) } else { c }
}
spec fn filled_opt(o: Option<Seq<char>>, p: Parser) -> Option<Seq<char>> { match o { Some(s) => Some(filled(s, p)), None => None } }
spec fn escaped(s: Seq<char>, p: Parser) -> Seq<char> { if angles(s) { effect(Step::SpecialCharacters, s, p, None) } else { s } }
spec fn before_address(s: Seq<char>) -> Seq<char> { trim(s.take(if idx(s, '<') < s.len() { idx(s, '<') } else { s.len() as int })) }
spec fn single(n: Seq<char>) -> Au { Au { name: n, first: n, middle: None, last: None, email: None } }
/// With two words, the second is the last name.
spec fn arrange(name: Seq<char>, a: Seq<char>, b: Option<Seq<char>>, c: Option<Seq<char>>, e: Option<Seq<char>>) -> Au {
    if b is Some && c is None { Au { name, first: a, middle: None, last: b, email: e } } else { Au { name, first: a, middle: b, last: c, email: e } }
}
spec fn author_of(t: Seq<char>, p: Parser) -> Option<Au> {
    let s = trim(t);
    if s.len() == 0 { None }
    else if one_ref(s) { Some(single(us(filled(s, p)))) }
    else if form(s) is Some { let f = form(s)->0; Some(arrange(us(before_address(s)), us(filled(f.first, p)), us_opt(filled_opt(f.second, p)), us_opt(filled_opt(f.third, p)), filled_opt(f.email, p))) }
    else if s.contains('{') {
        let x = filled(s, p);
        if form(x) is Some { let f = form(x)->0; Some(arrange(us(before_address(x)), us(f.first), us_opt(f.second), us_opt(f.third), f.email)) }
        else { Some(single(us(escaped(x, p)))) }
    } else { Some(single(us(escaped(s, p)))) }
}
//@fn document/author.rs | replace_underscores_with_spaces
//@ spec:
    ensures r@ == us(name@)
//@end
//@fn document/author.rs | apply_author_subs
//@ spec:
    ensures r@ == filled(source@, *parser)
//@end
//@fn document/author.rs | first_char_or_empty_string
//@ spec:
    ensures r@ == initial(s@)
//@ closure 0 params: c: char
//@ closure 0:
    -> (o: String) ensures o@ == seq![c]
//@end
//@fn document/author.rs | opt_first_char_or_empty_string
//@ spec:
    ensures r@ == initial_opt(match s { Some(s) => Some(s@), None => None })
//@end
spec fn initial(s: Seq<char>) -> Seq<char> { if s.len() > 0 { seq![s[0]] } else { Seq::empty() } }
spec fn initial_opt(s: Option<Seq<char>>) -> Seq<char> { match s { Some(s) => initial(s), None => Seq::empty() } }
spec fn initials_of(a: Au) -> Seq<char> { initial(a.first) + initial_opt(a.middle) + initial_opt(a.last) }
//@fn document/author.rs | Author::name
//@ spec:
    ensures r@ == au(*self).name
//@end
//@fn document/author.rs | Author::firstname
//@ spec:
    ensures r@ == au(*self).first
//@end
//@fn document/author.rs | Author::middlename
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == au(*self).middle
//@end
//@fn document/author.rs | Author::lastname
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == au(*self).last
//@end
//@fn document/author.rs | Author::email
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == au(*self).email
//@end
//@fn document/author.rs | Author::initials
//@ spec:
    ensures r@ =~= initials_of(au(*self))
//@end
//@fn document/author.rs | Author::parse
//@ index: captures
//@ spec:
    ensures opt_au(r) == author_of(source@, *parser)
//@ start:
    let ghost src0 = source;
    proof { assert forall|t: Seq<char>| #[trigger] t.take(t.len() as int) == t by { assert(t.take(t.len() as int) =~= t); } }
//@ after let source = source.trim:
    proof { lemma_enc_pos(source@); if source@.len() == 0 { assert(source@ =~= Seq::empty()); reveal_with_fuel(encode_utf8, 2); } }
    let ghost s = source@;
//@ exit:
    if s.len() > 0 {
    if one_ref(s) { assert(opt_au(__vp_r) == author_of(src0@, *parser)); }
    else if form(s) is Some { assert(opt_au(__vp_r)->0 == arrange(us(before_address(s)), us(filled(form(s)->0.first, *parser)), us_opt(filled_opt(form(s)->0.second, *parser)), us_opt(filled_opt(form(s)->0.third, *parser)), filled_opt(form(s)->0.email, *parser))); }
    else if s.contains('{') { assert(form(filled(s, *parser)) is Some ==> opt_au(__vp_r) == author_of(src0@, *parser));  assert(form(filled(s, *parser)) is None ==> opt_au(__vp_r) == author_of(src0@, *parser)); }
    else { assert(opt_au(__vp_r) == author_of(src0@, *parser)); }
    }
//@ closure 0 params: m: Match<'_>
//@ closure 0:
    -> (o: String) ensures o@ == us(filled(m.t(), *parser))
//@ closure 1 params: m: Match<'_>
//@ closure 1:
    -> (o: String) ensures o@ == us(filled(m.t(), *parser))
//@ closure 2 params: m: Match<'_>
//@ closure 2:
    -> (o: String) ensures o@ == filled(m.t(), *parser)
//@ closure 3 params: m: Match<'_>
//@ closure 3:
    -> (o: String) ensures o@ == us(m.t())
//@ closure 4 params: m: Match<'_>
//@ closure 4:
    -> (o: String) ensures o@ == us(m.t())
//@ closure 5 params: m: Match<'_>
//@ closure 5:
    -> (o: String) ensures o@ == m.t()
//@end
proof fn lemma_run_is(s: Seq<char>, q: spec_fn(char) -> bool, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> q(#[trigger] s[i]), n < s.len() ==> !q(s[n])
    ensures run_c(s, q) == n
    decreases n
{ if n > 0 { assert forall|i: int| 0 <= i < n - 1 implies q(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); } lemma_run_is(s.skip(1), q, n - 1); } }
/// Two words are a first and a last name.
proof fn lemma_two_words(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, b.len() > 0, w1()(a[0]), w1()(b[0]), forall|i: int| 0 <= i < a.len() ==> w2()(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> w2()(#[trigger] b[i])
    ensures form(a + seq![' '] + b) == Some(Form { first: a, second: Some(b), third: None, email: None })
{
    let s = a + seq![' '] + b;
    let n = a.len() as int;
    axiom_letter(' ');
    assert(s.skip(0) =~= s);
    assert forall|i: int| 0 <= i < n implies w2()(#[trigger] s[i]) by { assert(s[i] == a[i]); }
    assert(s[0] == a[0]); assert(s[n] == ' '); assert(!w2()(' '));
    lemma_run_is(s, w2(), n);
    axiom_letter(b[0]);
    assert(s.skip(n)[0] == ' '); assert(s.skip(n)[1] == b[0]); assert(b[0] != ' ');
    lemma_run_is(s.skip(n), sp(), 1);
    assert(s.skip(n + 1) =~= b);
    lemma_run_is(b, w2(), b.len() as int);
    assert(s.skip(s.len() as int) =~= Seq::empty());
    assert(s.take(n) =~= a);
    assert(s.subrange(n + 1, s.len() as int) =~= b);
}

/// The unit `repl` proves it (lemma_no_refs): text without a brace has no references.
axiom fn axiom_no_refs(t: Seq<char>, p: Parser) ensures !t.contains('{') ==> effect(Step::AttributeReferences, t, p, None) == t;
/// … which are reported as written, underscores joining words.
proof fn lemma_as_written(a: Seq<char>, b: Seq<char>, p: Parser)
    requires a.len() > 0, b.len() > 0, w1()(a[0]), w1()(b[0]), forall|i: int| 0 <= i < a.len() ==> w2()(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> w2()(#[trigger] b[i])
    ensures author_of(a + seq![' '] + b, p) == Some(Au { name: us(a + seq![' '] + b), first: us(a), middle: None, last: Some(us(b)), email: None })
{
    let s = a + seq![' '] + b;
    lemma_two_words(a, b);
    assert forall|i: int| 0 <= i < s.len() implies s[i] != '{' && s[i] != '<' && (i == 0 || i == s.len() - 1 ==> !is_ws(s[i])) by {
        axiom_letter(s[i]); if (s[i] as u32) < 128 { axiom_ws_ascii(s[i]); }
        if i < a.len() { assert(w2()(a[i])); } else if i > a.len() { assert(w2()(b[i - a.len() - 1])); }
    }
    lemma_trim_id(s);
    assert(!(starts(s, seq!['{']))) by { if starts(s, seq!['{']) { assert(s.take(1)[0] == s[0]); } }
    assert(!one_ref(s));
    lemma_no_brace(s, a, b);
    axiom_no_refs(a, p); axiom_no_refs(b, p);
    lemma_count_none(a, '{'); lemma_count_none(b, '{');
    assert(!s.contains('<'));
    lemma_idx_none(s, '<');
    assert(trim(s) == s);
    assert(filled(a, p) == a && filled(b, p) == b);
    assert(s.take(s.len() as int) =~= s);
}
proof fn lemma_idx_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures idx(s, c) == s.len()
{ lemma_run_is(s, not_c(c), s.len() as int); }
proof fn lemma_no_brace(s: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires s == a + seq![' '] + b, forall|i: int| 0 <= i < s.len() ==> s[i] != '{'
    ensures !a.contains('{'), !b.contains('{')
{
    if a.contains('{') { let i = choose|i: int| 0 <= i < a.len() && a[i] == '{'; assert(s[i] == '{'); }
    if b.contains('{') { let i = choose|i: int| 0 <= i < b.len() && b[i] == '{'; assert(s[a.len() + 1 + i] == '{'); }
}
proof fn lemma_count_none(s: Seq<char>, c: char)
    requires !s.contains(c)
    ensures count_c(s, c) == 0
    decreases s.len()
{ if s.len() > 0 { assert(s.contains(s.last())); if s.drop_last().contains(c) { let i = choose|i: int| 0 <= i < s.len() - 1 && s[i] == c; assert(s.contains(s[i])); } lemma_count_none(s.drop_last(), c); } }

// --- author lines ------------------------------------------------------------------------
//@type document/author_line.rs | AuthorLine
/// The authors of the parts of a line that have one.
spec fn picks(l: Seq<Seq<char>>, p: spec_fn(Seq<char>) -> Option<Au>) -> Seq<Au> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { match p(l[0]) { Some(a) => seq![a] + picks(l.skip(1), p), None => picks(l.skip(1), p) } }
}
spec fn aus(s: Seq<Author>) -> Seq<Au> { s.map_values(|a: Author| au(a)) }
impl VpParts {
    #[verifier::external_body]
    fn vp_filter_map<F: Fn(&str) -> Option<Author>>(self, f: F) -> (r: VpGen<Author>)
        requires forall|x: &str| f.requires((x,)), self.k() == 0
        ensures forall|p: spec_fn(Seq<char>) -> Option<Au>| (forall|x: &str, o: Option<Author>| #[trigger] f.ensures((x,), o) ==> opt_au(o) == p(x@)) ==> aus(r.s()) == #[trigger] picks(self.parts(), p)
    { unimplemented!() }
}
impl<'a, T> VpIt<'a, T> { #[verifier::external_body] fn vp_enumerate(self) -> (r: VpItEnum<'a, T>) requires self.k() == 0 ensures r.s() == self.s(), r.k() == 0 { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VpItEnum<'a, T> { x: &'a [T] }
impl<'a, T> VpItEnum<'a, T> {
    uninterp spec fn s(&self) -> Seq<T>;
    uninterp spec fn k(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        requires 0 <= old(self).k() <= old(self).s().len()
        ensures
            final(self).s() == old(self).s(), (r is Some) == (old(self).k() < old(self).s().len()), old(self).s().len() <= usize::MAX,
            r is Some ==> (r->0).0 == old(self).k() && *((r->0).1) == old(self).s()[old(self).k()] && final(self).k() == old(self).k() + 1,
            r is None ==> final(self).k() == old(self).k(),
    { unimplemented!() }
}
/// The name of an attribute of the `i`th author.
spec fn nth_name(name: Seq<char>, i: int) -> Seq<char> { if i == 0 { name } else { name + seq!['_'] + dec(i + 1) } }
spec fn set_nth(e: Env, name: Seq<char>, i: int, v: Option<Seq<char>>) -> Env { match v { Some(v) => step(e, true, primary(nth_name(name, i)), Val::Text(v)), None => e } }
//@fn document/author_line.rs | set_nth_attribute
//@ spec:
    requires index < usize::MAX
    ensures
        final(parser).default_attribute_values == old(parser).default_attribute_values,
        env(*final(parser)) =~= set_nth(env(*old(parser)), name@, index as int, Some(value.rf())),
//@end
/// The attributes of the `i`th author.
spec fn with_author(e: Env, i: int, a: Au) -> Env {
    let e = set_nth(e, "author"@, i, Some(a.name));
    let e = set_nth(e, "authorinitials"@, i, Some(initials_of(a)));
    let e = set_nth(e, "firstname"@, i, Some(a.first));
    let e = set_nth(e, "middlename"@, i, a.middle);
    let e = set_nth(e, "lastname"@, i, a.last);
    set_nth(e, "email"@, i, a.email)
}
spec fn with_authors(e: Env, l: Seq<Au>) -> Env decreases l.len() { if l.len() == 0 { e } else { with_author(with_authors(e, l.drop_last()), l.len() - 1, l.last()) } }
//@fn document/author_line.rs | AuthorLine::parse
//@ spec:
    ensures
        r.source == source,
        aus(r.authors@) == picks(split_s(source.data@, "; "@), |t: Seq<char>| author_of(t, *old(parser))),
        final(parser).default_attribute_values == old(parser).default_attribute_values,
        env(*final(parser)) =~= with_authors(env(*old(parser)), aus(r.authors@)),
//@ start:
    let ghost p0 = *parser;
    let ghost pick = |t: Seq<char>| author_of(t, p0);
//@ closure 0 params: raw_author: &str
//@ closure 0:
    -> (o: Option<Author>) ensures opt_au(o) == author_of(raw_author@, p0)
//@ loop 0 pre:
    let ghost l = aus(authors@);
    proof { assert(l == picks(split_s(source.data@, "; "@), pick)); assert(l.take(0) =~= Seq::empty()); }
//@ loop 0:
    invariant
        __it0.s() == authors@, 0 <= __it0.k() <= authors@.len(), l == aus(authors@),
        parser.default_attribute_values == p0.default_attribute_values,
        env(*parser) == with_authors(env(p0), l.take(__it0.k())),
    decreases authors@.len() - __it0.k()
//@ loop 0 start:
    let ghost k = __it0.k() - 1;
    proof { assert(l.take(k + 1).drop_last() =~= l.take(k)); assert(l.take(k + 1).last() == au(*author)); }
//@ loop 0 exit:
    proof { assert(l.take(l.len() as int) =~= l); }
//@end
//@fn document/author_line.rs | HasSpan for AuthorLine::span
//@ impl: impl<'src> AuthorLine<'src>
//@ spec:
    ensures r == self.source
//@end

// --- revision lines ----------------------------------------------------------------------
//@type document/revision_line.rs | RevisionLine
//@pattern document/revision_line.rs | STANDALONE_REVISION | r"^v\d"
//@pattern document/revision_line.rs | NON_NUMERIC_PREFIX | r"^[^0-9{]*(.*)$"
struct STANDALONE_REVISION;
struct NON_NUMERIC_PREFIX;
/// Decimal digits of any script.
uninterp spec fn digit(c: char) -> bool;
axiom fn axiom_digit(c: char) ensures ascii_digit(c) ==> digit(c), (c as u32) < 128 && digit(c) ==> ascii_digit(c);
spec fn v_number(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == 'v' && digit(s[1]) }
spec fn not_num() -> spec_fn(char) -> bool { |c: char| !ascii_digit(c) && c != '{' }
spec fn whole(s: Seq<char>, g: Groups) -> Seq<Cap> { seq![Cap { s: 0, e: s.len() as int, g }] }
impl VpRegex for STANDALONE_REVISION { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { if v_number(h) { seq![Cap { s: 0, e: 2, g: seq![Some(h.take(2))] }] } else { Seq::empty() } } }
impl VpRegex for NON_NUMERIC_PREFIX { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { let t = h.skip(run_c(h, not_num())); if t.contains('\n') { Seq::empty() } else { whole(h, seq![Some(h), Some(t)]) } } }
/// A revision number without what precedes its first digit (or reference).
spec fn bare_number(s: Seq<char>) -> Seq<char> { let t = s.skip(run_c(s, not_num())); if t.contains('\n') { s } else { t } }
//@fn document/revision_line.rs | is_valid_standalone_revision
//@ spec:
    ensures r == v_number(s@)
//@end
//@fn document/revision_line.rs | strip_non_numeric_prefix
//@ spec:
    ensures r@ == bare_number(s@)
//@ closure 0 params: captures: Captures<'_>
//@ closure 0:
    -> (o: Option<Match<'_>>) ensures (o is Some) == captures.has(1), o is Some ==> (o->0).t() == captures.g()[1]->0
//@ closure 1:
    -> (o: String) ensures o@ == s@
//@ closure 2 params: m: Match<'_>
//@ closure 2:
    -> (o: String) ensures o@ == m.t()
//@end
//@fn document/revision_line.rs | apply_header_subs
//@ spec:
    ensures r@ == in_header(source@, *parser)
//@ start:
    proof { assert(!steps_of(SubstitutionGroup::Header).contains(Step::Callouts)); }
//@end
spec fn in_header(s: Seq<char>, p: Parser) -> Seq<char> { outcome(SubstitutionGroup::Header, s, p, None) }
/// `number, date: remark`, as written.
struct Rev { ghost number: Option<Seq<char>>, ghost date: Seq<char>, ghost remark: Option<Seq<char>> }
spec fn rev_of(s: Seq<char>) -> Rev {
    let c = idx(s, ':');
    let l = if c < s.len() { s.take(c) } else { s };
    let remark = if c < s.len() { Some(trim(s.skip(c + 1))) } else { None };
    let k = idx(l, ',');
    if k < l.len() { Rev { number: Some(bare_number(trim(l.take(k)))), date: trim(l.skip(k + 1)), remark } }
    else if v_number(trim(l)) { Rev { number: Some(bare_number(trim(l))), date: Seq::empty(), remark } }
    else { Rev { number: None, date: trim(l), remark } }
}
spec fn set_opt(e: Env, n: Seq<char>, v: Option<Seq<char>>) -> Env { match v { Some(v) => step(e, true, primary(n), Val::Text(v)), None => e } }
/// The parser `p` with other attributes.
spec fn sets(p: Parser, q: Parser, n: Seq<char>, v: Option<Seq<char>>) -> bool { env(q) =~= set_opt(env(p), n, v) && q.default_attribute_values == p.default_attribute_values }
//@fn document/revision_line.rs | RevisionLine::parse
//@ spec:
    ensures
        r.source == source,
        ({
            let v = rev_of(source.data@);
            &&& ot(r.revnumber) == (match v.number { Some(n) => Some(in_header(n, *old(parser))), None => None })
            &&& (ot(r.revremark) is Some) == (v.remark is Some)
            // Each part is substituted when those before it are in force, and is the attribute's value.
            &&& exists|p1: Parser, p2: Parser| #[trigger] sets(*old(parser), p1, "revnumber"@, ot(r.revnumber)) && #[trigger] sets(p1, p2, "revdate"@, Some(r.revdate@))
                && r.revdate@ == in_header(v.date, p1) && (v.remark is Some ==> ot(r.revremark)->0 == in_header(v.remark->0, p2))
                && sets(p2, *final(parser), "revremark"@, ot(r.revremark))
        }),
//@ start:
    let ghost p0 = *parser;
    proof { lemma_idx(source.data@, ':'); }
//@ closure 0 params: s: String
//@ closure 0:
    -> (o: String) ensures o@ == in_header(s@, p0)
//@ before let revdate =:
    let ghost p1 = *parser;
//@ before let revremark =:
    let ghost p2 = *parser;
//@ closure 1 params: s: String
//@ closure 1:
    -> (o: String) ensures o@ == in_header(s@, p2)
//@ exit:
    assert(sets(p0, p1, "revnumber"@, ot(__vp_r.revnumber)));
    assert(sets(p1, p2, "revdate"@, Some(__vp_r.revdate@)));
//@end
proof fn lemma_idx(s: Seq<char>, c: char)
    ensures 0 <= idx(s, c) <= s.len()
    decreases s.len()
{ if s.len() > 0 && s[0] != c { lemma_idx(s.skip(1), c); } }
//@fn document/revision_line.rs | RevisionLine::revnumber
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == ot(self.revnumber)
//@end
//@fn document/revision_line.rs | RevisionLine::revdate
//@ spec:
    ensures r@ == self.revdate@
//@end
//@fn document/revision_line.rs | RevisionLine::revremark
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == ot(self.revremark)
//@end
