// --- C12: passthroughs -------------------------------------------------------------------
#[allow(non_snake_case)] spec const SM: char = '\u{96}';
#[allow(non_snake_case)] spec const EM: char = '\u{97}';
/// What is kept of one: its text, its substitutions, and how it is marked up.
ghost struct PassV { text: Seq<char>, subs: SubstitutionGroup, type_: Option<QuoteType>, attrs: Option<Seq<char>> }
spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn pv(p: Passthrough) -> PassV { PassV { text: p.text@, subs: p.subs, type_: p.type_, attrs: otext(p.attrlist) } }
/// The renderer that an application gives: what it writes is a function of what it is given.
trait InlineSubstitutionRenderer {
    spec fn quoted_out(&self, type_: QuoteType, scope: QuoteScope, attrs: Option<AttrV>, id: Option<Seq<char>>, body: Seq<char>, d: Seq<char>) -> Seq<char>;
    fn render_quoted_substitition(&self, type_: QuoteType, scope: QuoteScope, attrlist: Option<Attrlist<'_>>, id: Option<String>, body: &str, dest: &mut String)
        ensures final(dest)@ == self.quoted_out(type_, scope, av(attrlist), otext(id), body@, old(dest)@);
}
ghost struct AttrV { a: int }
impl Attrlist<'_> { uninterp spec fn v(&self) -> AttrV; }
spec fn av(a: Option<Attrlist>) -> Option<AttrV> { match a { Some(a) => Some(a.v()), None => None } }
spec fn pvs(p: Passthroughs) -> Seq<PassV> { p.0@.map_values(|x: Passthrough| pv(x)) }
/// What takes the place of number `k`.
spec fn mark(k: int) -> Seq<char> { seq![SM] + dec(k) + seq![EM] }
spec fn rep(c: char, n: int) -> Seq<char> { Seq::new(n as nat, |i: int| c) }
spec fn replace2(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || p.len() == 0 { s } else if starts(s, p) { t + replace2(s.skip(p.len() as int), p, t) } else { seq![s[0]] + replace2(s.skip(1), p, t) }
}
/// std, by its documentation.
trait VpRepeat { spec fn rp(&self) -> Seq<char>; fn vp_repeat(&self, n: usize) -> (r: String) ensures self.rp().len() == 1 ==> r@ == rep(self.rp()[0], n as int);
    fn vp_replace(&self, p: &str, t: &str) -> (r: String) ensures p@.len() > 0 ==> r@ == replace2(self.rp(), p@, t@);
    fn vp_split_at(&self, n: usize) -> (r: (&str, &str)) requires n == 1, self.rp().len() > 0, (self.rp()[0] as u32) < 128 ensures r.0@ == self.rp().take(1), r.1@ == self.rp().skip(1); }
impl VpRepeat for str { spec fn rp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_repeat(&self, n: usize) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vp_replace(&self, p: &str, t: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vp_split_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() } }
impl VpRepeat for String { spec fn rp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_repeat(&self, n: usize) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vp_replace(&self, p: &str, t: &str) -> (r: String) { unimplemented!() } #[verifier::external_body] fn vp_split_at(&self, n: usize) -> (r: (&str, &str)) { unimplemented!() } }

//@assume content/substitution_group.rs | SubstitutionGroup::from_custom_string
//@ spec:
    ensures r == named_subs(start_from, custom@)
//@end
/// (What a list of substitutions stands for: the unit `subs`.)
uninterp spec fn named_subs(s: Option<&SubstitutionGroup>, t: Seq<char>) -> Option<SubstitutionGroup>;
spec fn clean(g: SubstitutionGroup) -> bool { match g { SubstitutionGroup::Custom(v) => !v@.contains(SubstitutionStep::Callouts), _ => true } }
/// (Proved by the units `subs` and `repl`: lemma_no_callouts, lemma_verbatim.)
axiom fn axiom_subs(t: Seq<char>)
    ensures named_subs(None, t) is Some ==> clean(named_subs(None, t)->0);

//@fn content/passthroughs.rs | Passthroughs::push
//@ spec:
    ensures final(self).0@ == old(self).0@.push(passthrough), pvs(*final(self)) =~= pvs(*old(self)).push(pv(passthrough)), final(dest)@ =~= old(dest)@ + mark(old(self).0@.len() as int)
//@end

// The passthrough macros: [attrs]+++..+++, ++..++, $$..$$ and pass:subs[..].
//@pattern content/passthroughs.rs | INLINE_PASS_MACRO | r#"(?xs)(?:(?:(\\?)\[([^\[\]]+)\])?(\\{0,2})(?:(\+\+\+)(.*?)(\+\+\+)|(\+\+)(.*?)(\+\+)|(\$\$)(.*?)(\$\$))|(\\?)pass:([a-z]+(?:,[a-z-]+)*)?\[(|.*?[^\\])\])"#
struct INLINE_PASS_MACRO;
uninterp spec fn macros_in(h: Seq<char>) -> Seq<Cap>;
impl VpRegex for INLINE_PASS_MACRO { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { macros_in(h) } }
spec fn hasg(g: Groups, i: int) -> bool { 0 <= i < g.len() && g[i] is Some }
spec fn escapes(t: Seq<char>) -> bool { t =~= rep('\\', t.len() as int) }
spec fn quoted_shape(g: Groups) -> bool {
    &&& g.len() == 16 && hasg(g, 3) && escapes(g[3]->0) && g[3]->0.len() <= 2 && g[13] is None && g[14] is None && g[15] is None
    &&& (g[1] is Some) == (g[2] is Some) && (hasg(g, 1) ==> escapes(g[1]->0) && g[1]->0.len() <= 1)
    &&& (hasg(g, 4) && hasg(g, 5) && g[4]->0 == "+++"@ && !hasg(g, 7) && !hasg(g, 8) && !hasg(g, 10) && !hasg(g, 11))
        || (hasg(g, 7) && hasg(g, 8) && g[7]->0 == "++"@ && !hasg(g, 4) && !hasg(g, 5) && !hasg(g, 10) && !hasg(g, 11))
        || (hasg(g, 10) && hasg(g, 11) && g[10]->0 == "$$"@ && !hasg(g, 4) && !hasg(g, 5) && !hasg(g, 7) && !hasg(g, 8))
}
spec fn pass_shape(g: Groups) -> bool { g.len() == 16 && hasg(g, 13) && escapes(g[13]->0) && g[13]->0.len() <= 1 && hasg(g, 15) && !hasg(g, 4) && !hasg(g, 7) && !hasg(g, 10) }
/// Assumed of the pattern: which of its groups take part together, and that no match is without its mark.
axiom fn axiom_macros(h: Seq<char>)
    ensures
        forall|i: int| 0 <= i < macros_in(h).len() ==> quoted_shape(#[trigger] macros_in(h)[i].g) || pass_shape(macros_in(h)[i].g),
        macros_in(h).len() > 0 ==> "++".within(h) || "$$".within(h) || "ss:".within(h);

spec fn boundary(g: Groups) -> Seq<char> { if hasg(g, 4) { g[4]->0 } else if hasg(g, 7) { g[7]->0 } else { g[10]->0 } }
spec fn inner(g: Groups) -> Seq<char> { if hasg(g, 4) { g[5]->0 } else if hasg(g, 7) { g[8]->0 } else { g[11]->0 } }
spec fn x_minus(a: Seq<char>) -> Option<Seq<char>> { if a == "x-"@ { Some(Seq::empty()) } else if ends(a, " x-"@) { Some(a.take(a.len() - 3)) } else { None } }
spec fn took(s: Seq<PassV>, p: PassV, d: Seq<char>) -> (Seq<PassV>, Seq<char>) { (s.push(p), d + mark(s.len() as int)) }
spec fn plain_subs(g: Groups) -> SubstitutionGroup { if boundary(g) == "+++"@ { SubstitutionGroup::None } else { SubstitutionGroup::Verbatim } }
/// +++text+++ is kept raw, ++text++ and $$text$$ with special characters escaped; one backslash of an escaped one is dropped, and the rest left.
spec fn kept_quoted(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) {
    let (b, t, n) = (boundary(g), inner(g), g[3]->0.len() as int);
    let p = PassV { text: t, subs: plain_subs(g), type_: None, attrs: None };
    if hasg(g, 2) {
        let a = g[2]->0;
        if n > 0 { (s, d + g[1]->0 + seq!['['] + a + seq![']'] + rep('\\', n - 1) + b + t + b) }
        else if g[1]->0 == "\\"@ { took(s, p, d + (seq!['['] + a + seq![']'])) }
        else if b == "++"@ && x_minus(a) is Some { took(s, PassV { text: t, subs: SubstitutionGroup::Normal, type_: Some(QuoteType::Monospaced), attrs: x_minus(a) }, d) }
        else { took(s, PassV { text: t, subs: plain_subs(g), type_: Some(QuoteType::Unquoted), attrs: Some(a) }, d) }
    } else if n > 0 { (s, d + rep('\\', n - 1) + b + t + b) }
    else { took(s, p, d) }
}
/// pass:subs[text] is kept with those substitutions (none, if there are none or they are not known), `\]` in it meaning `]`; an escaped one is left, without its backslash.
spec fn kept_pass(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) {
    let t = g[15]->0;
    if g[13]->0.len() > 0 { (s, d + "pass:"@ + (if hasg(g, 14) { g[14]->0 } else { Seq::empty() }) + seq!['['] + t + seq![']']) }
    else {
        let subs = if hasg(g, 14) { match named_subs(None, g[14]->0) { Some(x) => x, None => SubstitutionGroup::None } } else { SubstitutionGroup::None };
        took(s, PassV { text: replace2(t, "\\]"@, "]"@), subs, type_: None, attrs: None }, d)
    }
}
/// What the passthrough macros of a text become.
spec fn macro_nx(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) { if hasg(g, 4) || hasg(g, 7) || hasg(g, 10) { kept_quoted(s, g, d) } else { kept_pass(s, g, d) } }
spec fn macro_ms(ms: Seq<Cap>, h: Seq<char>, at: int, s: Seq<PassV>, d: Seq<char>) -> (Seq<PassV>, Seq<char>) decreases ms.len() {
    if ms.len() == 0 { (s, d + h.skip(at)) } else {
        let (s2, d2) = macro_nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        macro_ms(ms.skip(1), h, ms[0].e, s2, d2)
    }
}
spec fn all_clean(s: Seq<PassV>) -> bool { forall|i: int| 0 <= i < s.len() ==> clean((#[trigger] s[i]).subs) }
proof fn lemma_macro_ms<'p>(ms: Seq<Cap>, h: Seq<char>, at: int, s: Seq<PassV>, d: Seq<char>)
    requires forall|i: int| 0 <= i < ms.len() ==> quoted_shape(#[trigger] ms[i].g) || pass_shape(ms[i].g), all_clean(s)
    ensures
        run::<InlinePassMacroReplacer<'p>>(ms, h, at, s, d) == macro_ms(ms, h, at, s, d),
        runs::<InlinePassMacroReplacer<'p>>(ms, h, at, s, d),
        all_clean(macro_ms(ms, h, at, s, d).0),
    decreases ms.len()
{
    if ms.len() > 0 {
        let g = ms[0].g;
        let (s2, d2) = macro_nx(s, g, d + h.subrange(at, ms[0].s));
        if hasg(g, 14) { axiom_subs(g[14]->0); }
        assert(all_clean(s2));
        assert(ms.skip(1).len() == ms.len() - 1);
        assert forall|i: int| 0 <= i < ms.skip(1).len() implies quoted_shape(#[trigger] ms.skip(1)[i].g) || pass_shape(ms.skip(1)[i].g) by { assert(ms.skip(1)[i] == ms[i + 1]); }
        lemma_macro_ms(ms.skip(1), h, ms[0].e, s2, d2);
    }
}
impl<'p> Replacer for InlinePassMacroReplacer<'p> {
    type St = Seq<PassV>;
    spec fn st(&self) -> Seq<PassV> { pvs(*self.0) }
    #[verifier::prophetic] spec fn fin(&self) -> Seq<PassV> { pvs(*final(self.0)) }
    spec fn can(s: Seq<PassV>, g: Groups) -> bool { quoted_shape(g) || pass_shape(g) }
    spec fn nx(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) { macro_nx(s, g, d) }
    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) { self.vp_replace_append(caps, dest) }
}
//@fn content/passthroughs.rs | Replacer for InlinePassMacroReplacer::replace_append
//@ name: vp_replace_append
//@ index: caps
//@ spec:
    requires InlinePassMacroReplacer::can(old(self).st(), caps.g())
    ensures (final(self).st(), final(dest)@) == InlinePassMacroReplacer::nx(old(self).st(), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ closure 0 params: m: Match<'_>
//@ closure 0:
    -> (o: bool) ensures o == (m.t().len() > 0)
//@ closure 1 params: m: Match<'_>
//@ closure 1:
    -> (o: Option<SubstitutionGroup>) ensures o == named_subs(None, m.t())
//@end
//@fn content/passthroughs.rs | InlinePassMacroReplacer::handle_quoted_text
//@ index: caps
//@ rename as_ref: vp_as_ref
//@ spec:
    requires quoted_shape(caps.g()), caps.has(4) ==> quoted_text_index == 5, caps.has(7) ==> quoted_text_index == 8, caps.has(10) ==> quoted_text_index == 11
    ensures (pvs(*final(self).0), final(dest)@) == kept_quoted(pvs(*old(self).0), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ start:
    let ghost g = caps.g();
    let ghost d0 = dest@;
    proof {
        lemma_escapes_len(g[3]->0);
        if hasg(g, 2) {
            assert(" x-"@.len() == 3);
            assert("\\"@ =~= seq!['\\']);
            assert(rep('\\', 1) =~= seq!['\\']);
        }
    }
//@ after let attrlist = attrlist.as_str():
    proof { if ends(attrlist@, " x-"@) { let t = attrlist@.skip(attrlist@.len() - 3); assert(t =~= " x-"@); lemma_cut_tail(attrlist, 3); } }
//@ closure 0 params: m: Match<'_>
//@ closure 0:
    -> (o: usize) ensures o == encode_utf8(m.t()).len()
//@ closure 1:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(7), o is Some ==> (o->0).t() == caps.g()[7]->0
//@ closure 2:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(10), o is Some ==> (o->0).t() == caps.g()[10]->0
//@ closure 3 params: m: Match<'_>
//@ closure 3:
    -> (o: &str) ensures o@ == m.t()
//@ closure 4:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(8), o is Some ==> (o->0).t() == caps.g()[8]->0
//@ closure 5:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(11), o is Some ==> (o->0).t() == caps.g()[11]->0
//@ closure 6 params: m: Match<'_>
//@ closure 6:
    -> (o: &str) ensures o@ == m.t()
//@ closure 7 params: m: Match<'_>
//@ closure 7:
    -> (o: String) ensures o@ == m.t()
//@ closure 8 params: m: Match<'_>
//@ closure 8:
    -> (o: String) ensures o@ == m.t()
//@ closure 9 params: m: Match<'_>
//@ closure 9:
    -> (o: String) ensures o@ == m.t()
//@end
proof fn lemma_escapes_len(t: Seq<char>)
    requires escapes(t)
    ensures encode_utf8(t).len() == t.len()
{
    assert(ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { assert(t[i] == rep('\\', t.len() as int)[i]); } }
    lemma_ascii_seq(t);
}

// The plus passthroughs: [attrs]+..+, [x-]`..` and +..+.
//@pattern content/passthroughs.rs | INLINE_PASS | r#"(?xs)\b{start-half}(?:\[(x-|[^\[\]]+\ x-)\]\`(\S(?:.*?\S)??)\`|\[([^\[\]]+)\](\\{0,2})\+(\S(?:.*?\S)??)\+|(\\)?\+(\S(?:.*?\S)??)\+)\b{end-half}"#
struct INLINE_PASS;
uninterp spec fn plus_in(h: Seq<char>) -> Seq<Cap>;
impl VpRegex for INLINE_PASS { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { plus_in(h) } }
spec fn plus_shape(g: Groups) -> bool {
    &&& g.len() == 8 && g[0] is Some && g[0]->0.len() > 0 && (g[0]->0[0] as u32) < 128
    &&& (hasg(g, 1) && hasg(g, 2) && !hasg(g, 3) && !hasg(g, 4) && !hasg(g, 5) && !hasg(g, 6) && !hasg(g, 7))
        || (!hasg(g, 1) && !hasg(g, 2) && hasg(g, 3) && hasg(g, 4) && hasg(g, 5) && !hasg(g, 6) && !hasg(g, 7) && escapes(g[4]->0))
        || (!hasg(g, 1) && !hasg(g, 2) && !hasg(g, 3) && !hasg(g, 4) && !hasg(g, 5) && hasg(g, 7) && (hasg(g, 6) ==> escapes(g[6]->0)))
}
axiom fn axiom_plus(h: Seq<char>)
    ensures
        forall|i: int| 0 <= i < plus_in(h).len() ==> plus_shape(#[trigger] plus_in(h)[i].g) && plus_in(h)[i].g[0]->0.len() <= h.len(),
        plus_in(h).len() > 0 ==> h.contains('+') || "-]".within(h);
spec fn plus_attrs(g: Groups) -> Option<Seq<char>> { if hasg(g, 1) { g[1] } else if hasg(g, 3) { g[3] } else { None } }
spec fn plus_text(g: Groups) -> Seq<char> { if hasg(g, 2) { g[2]->0 } else if hasg(g, 5) { g[5]->0 } else { g[7]->0 } }
spec fn plus_escapes(g: Groups) -> int { if hasg(g, 4) { g[4]->0.len() as int } else if hasg(g, 6) { g[6]->0.len() as int } else { 0 } }
/// The text after which a plus passthrough is not one.
spec fn barred(d: Seq<char>) -> bool { d.len() > 0 && (d.last() == '\\' || d.last() == ':' || d.last() == ';') }
/// +text+ is kept with special characters escaped only; with `x-` among its attributes it is monospaced, and +text+ then has the normal substitutions.
spec fn plus_plain(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) {
    let (t, n, m) = (plus_text(g), plus_escapes(g), if hasg(g, 2) { '`' } else { '+' });
    match plus_attrs(g) {
        Some(a) => if n > 0 { (s, d + seq!['['] + a + seq![']'] + rep('\\', n - 1) + seq![m] + t + seq![m]) }
            else { match x_minus(a) {
                Some(x) => took(s, PassV { text: t, subs: if m == '`' { SubstitutionGroup::Verbatim } else { SubstitutionGroup::Normal }, type_: Some(QuoteType::Monospaced), attrs: Some(x) }, d),
                None => took(s, PassV { text: t, subs: SubstitutionGroup::Verbatim, type_: Some(QuoteType::Unquoted), attrs: Some(a) }, d),
            } },
        None => if n > 0 { (s, d + rep('\\', n - 1) + seq![m] + t + seq![m]) } else { took(s, PassV { text: t, subs: SubstitutionGroup::Verbatim, type_: None, attrs: None }, d) },
    }
}
/// Where it may not begin, its first character is left as it is, and the rest is looked through again.
spec fn plus_nx(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) decreases g[0]->0.len(), 0int, 0int {
    if barred(d) && g[0]->0.len() > 0 {
        let w = g[0]->0.skip(1);
        let (s2, t2) = plus_ms(plus_in(w), w, 0, s, Seq::empty());
        (s2, d + g[0]->0.take(1) + t2)
    } else { plus_plain(s, g, d) }
}
spec fn plus_ms(ms: Seq<Cap>, h: Seq<char>, at: int, s: Seq<PassV>, d: Seq<char>) -> (Seq<PassV>, Seq<char>) decreases h.len(), 1int, ms.len() {
    if ms.len() == 0 { (s, d + h.skip(at)) } else if ms[0].g[0]->0.len() > h.len() { (s, d) } else {
        let (s2, d2) = plus_nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        plus_ms(ms.skip(1), h, ms[0].e, s2, d2)
    }
}
proof fn lemma_plus_nx(s: Seq<PassV>, g: Groups, d: Seq<char>)
    requires all_clean(s)
    ensures all_clean(plus_nx(s, g, d).0)
    decreases g[0]->0.len(), 0int, 0int
{
    if barred(d) && g[0]->0.len() > 0 { let w = g[0]->0.skip(1); lemma_plus_clean(plus_in(w), w, 0, s, Seq::empty()); }
}
proof fn lemma_plus_clean(ms: Seq<Cap>, h: Seq<char>, at: int, s: Seq<PassV>, d: Seq<char>)
    requires all_clean(s)
    ensures all_clean(plus_ms(ms, h, at, s, d).0)
    decreases h.len(), 1int, ms.len()
{
    if ms.len() > 0 && ms[0].g[0]->0.len() <= h.len() {
        lemma_plus_nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        let (s2, d2) = plus_nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        lemma_plus_clean(ms.skip(1), h, ms[0].e, s2, d2);
    }
}
proof fn lemma_plus_ms<'p>(ms: Seq<Cap>, h: Seq<char>, at: int, s: Seq<PassV>, d: Seq<char>)
    requires forall|i: int| 0 <= i < ms.len() ==> plus_shape(#[trigger] ms[i].g) && ms[i].g[0]->0.len() <= h.len()
    ensures
        run::<InlinePassReplacer<'p>>(ms, h, at, s, d) == plus_ms(ms, h, at, s, d),
        runs::<InlinePassReplacer<'p>>(ms, h, at, s, d),
    decreases ms.len()
{
    if ms.len() > 0 {
        let (s2, d2) = plus_nx(s, ms[0].g, d + h.subrange(at, ms[0].s));
        assert forall|i: int| 0 <= i < ms.skip(1).len() implies plus_shape(#[trigger] ms.skip(1)[i].g) && ms.skip(1)[i].g[0]->0.len() <= h.len() by { assert(ms.skip(1)[i] == ms[i + 1]); }
        lemma_plus_ms(ms.skip(1), h, ms[0].e, s2, d2);
    }
}
impl<'p> Replacer for InlinePassReplacer<'p> {
    type St = Seq<PassV>;
    spec fn st(&self) -> Seq<PassV> { pvs(*self.0) }
    #[verifier::prophetic] spec fn fin(&self) -> Seq<PassV> { pvs(*final(self.0)) }
    spec fn can(s: Seq<PassV>, g: Groups) -> bool { plus_shape(g) }
    spec fn nx(s: Seq<PassV>, g: Groups, d: Seq<char>) -> (Seq<PassV>, Seq<char>) { plus_nx(s, g, d) }
    /// It uses itself, on shorter texts, through its contract, which is proved of `vp_replace_append` below (the same text).
    #[verifier::external_body] fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) { unimplemented!() }
}
impl VpHay for &str { spec fn hay(&self) -> Seq<char> { (*self)@ } }
impl VpEqS for Cow<'_, str> { spec fn es(&self) -> Seq<char> { cow(*self) } }
trait VpPush { spec fn pt(&self) -> Seq<char>; fn vp_push_str<T: VpEqS + ?Sized>(&mut self, t: &T) ensures final(self).pt() == old(self).pt() + t.es(); }
impl VpPush for String { spec fn pt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_push_str<T: VpEqS + ?Sized>(&mut self, t: &T) { unimplemented!() } }
//@fn content/passthroughs.rs | Replacer for InlinePassReplacer::replace_append
//@ name: vp_replace_append
//@ index: caps
//@ rename push_str: vp_push_str
//@ spec:
    requires plus_shape(caps.g())
    ensures (pvs(*final(self).0), final(dest)@) == plus_nx(pvs(*old(self).0), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ start:
    let ghost g = caps.g();
    let ghost d0 = dest@;
    proof {
        if ends(d0, seq!['\\']) || ends(d0, seq![':']) || ends(d0, seq![';']) { assert(d0.skip(d0.len() - 1)[0] == d0.last()); }
        if d0.len() > 0 { assert(d0.skip(d0.len() - 1) =~= seq![d0.last()]); }
        let w = g[0]->0.skip(1);
        axiom_plus(w);
        lemma_plus_ms(plus_in(w), w, 0, pvs(*self.0), Seq::empty());
        if hasg(g, 4) { lemma_escapes_len(g[4]->0); }
        if hasg(g, 6) { lemma_escapes_len(g[6]->0); }
    }
//@ closure 0:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(6), o is Some ==> (o->0).t() == caps.g()[6]->0
//@ closure 1 params: m: Match<'_>
//@ closure 1:
    -> (o: usize) ensures o == encode_utf8(m.t()).len()
//@ closure 2:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(3), o is Some ==> (o->0).t() == caps.g()[3]->0
//@ closure 3 params: m: Match<'_>
//@ closure 3:
    -> (o: &str) ensures o@ == m.t()
//@ closure 4 params: m: &str
//@ closure 4:
    -> (o: (Option<String>, bool)) ensures o.1 == (x_minus(m@) is Some), o.0 is Some, (o.0->0)@ == (match x_minus(m@) { Some(x) => x, None => m@ })
//@ closure 4 bind:
    proof { if ends(m@, " x-"@) { let t = m@.skip(m@.len() - 3); assert(t =~= " x-"@); lemma_cut_tail(m, 3); } }
//@ closure 5:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(5), o is Some ==> (o->0).t() == caps.g()[5]->0
//@ closure 6:
    -> (o: Option<Match<'_>>) ensures (o is Some) == caps.has(7), o is Some ==> (o->0).t() == caps.g()[7]->0
//@ closure 7 params: m: Match<'_>
//@ closure 7:
    -> (o: &str) ensures o@ == m.t()
//@end

// --- putting them back --------------------------------------------------------------------
uninterp spec fn outcome(g: SubstitutionGroup, t: Seq<char>, p: Parser, a: Option<AttrV>) -> Seq<char>;
/// (Proved by the unit `repl`: lemma_verbatim. Verbatim text has its special characters escaped and nothing else done.)
axiom fn axiom_raw(t: Seq<char>, p: Parser)
    ensures outcome(SubstitutionGroup::None, t, p, None) == t;
//@assume content/substitution_group.rs | SubstitutionGroup::apply
//@ spec:
    requires clean(*self)
    ensures text(*final(content)) == outcome(*self, text(*old(content)), *parser, match attrlist { Some(a) => Some(a.v()), None => None })
//@end
//@fn span/mod.rs | Span::new
//@ spec:
    ensures r.data == data
//@end
//@fn span/mod.rs | Span::data
//@ spec:
    ensures r == self.data
//@end
impl<'a> CowStr<'a> { #[verifier::external_body] fn from(s: &'a str) -> (r: Self) ensures r.t() == s@ { unimplemented!() } }
//@fn content/content.rs | From<Span<'src>> for Content::from
//@ impl: impl<'src> Content<'src>
//@ spec:
    ensures text(r) == span.data@
//@end
//@fn content/content.rs | Content::rendered
//@ rename as_ref: vp_as_ref
//@ spec:
    ensures r@ == text(*self)
//@end
/// What a list of attributes, as written in a passthrough, says, and the ID in it.
uninterp spec fn inline_attrs(t: Seq<char>, p: Parser) -> AttrV;
uninterp spec fn id_of(v: AttrV) -> Option<Seq<char>>;
//@assume attributes/attrlist.rs | Attrlist::parse
//@ spec:
    ensures attrlist_context is Inline ==> r.item.item.v() == inline_attrs(source.data@, *parser)
//@end
//@assume attributes/attrlist.rs | Attrlist::id
//@ spec:
    ensures (match r { Some(s) => Some(s@), None => None }) == id_of(self.v())
//@end
/// The text that one stands for, before those in it are put back.
spec fn base(v: PassV, p: Parser) -> Seq<char> {
    let t = outcome(v.subs, v.text, p, None);
    match v.type_ {
        Some(ty) => {
            let a: Option<AttrV> = match v.attrs { Some(x) => Some(inline_attrs(x, p)), None => None };
            (*p.renderer).quoted_out(ty, QuoteScope::Unconstrained, a, match a { Some(x) => id_of(x), None => None }, t, Seq::empty())
        }
        None => t,
    }
}
//@pattern content/passthroughs.rs | PASS_WITH_INDEX | "\u{96}(\\d+)\u{97}"
struct PASS_WITH_INDEX;
uninterp spec fn udigit(c: char) -> bool;
/// `\d` has the ten ASCII digits, and not the marks.
axiom fn axiom_udigit(c: char) ensures ascii_digit(c) ==> udigit(c), udigit(c) ==> c != SM && c != EM;
/// Decimal numerals are of digits.
axiom fn axiom_dec_digits(n: int) ensures dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> ascii_digit(#[trigger] dec(n)[i]);
spec fn digits_end(h: Seq<char>, i: int) -> int decreases h.len() - i { if 0 <= i < h.len() && udigit(h[i]) { digits_end(h, i + 1) } else { i } }
/// The matches of the marks' pattern, from `i` on.
spec fn marks(h: Seq<char>, i: int) -> Seq<Cap> decreases h.len() - i {
    if i < 0 || i >= h.len() { Seq::empty() } else {
        let e = digits_end(h, i + 1);
        if h[i] == SM && i + 1 < e < h.len() && h[e] == EM { seq![Cap { s: i, e: e + 1, g: seq![Some(h.subrange(i, e + 1)), Some(h.subrange(i + 1, e))] }] + marks(h, e + 1) } else { marks(h, i + 1) }
    }
}
impl VpRegex for PASS_WITH_INDEX { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { marks(h, 0) } }
/// The number that a text is read as (`parse`; 0 if it is none or too large).
uninterp spec fn num(t: Seq<char>) -> int;
axiom fn axiom_num(n: int) ensures 0 <= n <= usize::MAX ==> num(dec(n)) == n, num(dec(n)) >= 0;
#[verifier::external_body] #[verifier::reject_recursive_types(T)] struct VpParsed<T> { x: T }
impl<T> VpParsed<T> { uninterp spec fn n(&self) -> int; }
impl VpParsed<usize> { #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: usize) ensures r == self.n() { unimplemented!() } }
trait VpParse { spec fn pn(&self) -> Seq<char>; fn vp_parse<T>(&self) -> (r: VpParsed<T>) ensures r.n() == num(self.pn()); }
impl VpParse for str { spec fn pn(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_parse<T>(&self) -> (r: VpParsed<T>) { unimplemented!() } }

trait VpORef<T> { fn vp_as_ref(&self) -> Option<&T>; }
impl<T> VpORef<T> for Option<T> { fn vp_as_ref(&self) -> (r: Option<&T>) ensures (r is Some) == (*self is Some), r is Some ==> *(r->0) == self->0 { match self { Some(t) => Some(t), None => None } } }
impl VpAsRef<str> for Cow<'_, str> { spec fn rf(&self) -> Seq<char> { cow(*self) } #[verifier::external_body] fn as_ref(&self) -> (r: &str) { unimplemented!() } }
spec fn unresolved(k: int) -> Seq<char> { "(INTERNAL ERROR: Unresolved passthrough index "@ + dec(k) + ")"@ }
/// What takes the place of mark `k`, those before `lim` being known: the text that it stands for, with the earlier ones in it put back.
spec fn piece(ps: Seq<PassV>, p: Parser, lim: int, k: int) -> Seq<char> decreases lim, 0int, 0int {
    if 0 <= k < lim && k < ps.len() { let b = base(ps[k], p); if b.contains(SM) { restored_ms(ps, p, k, marks(b, 0), b, 0, Seq::empty()) } else { b } } else { unresolved(k) }
}
spec fn restored_ms(ps: Seq<PassV>, p: Parser, lim: int, ms: Seq<Cap>, h: Seq<char>, at: int, d: Seq<char>) -> Seq<char> decreases lim, 1int, ms.len() {
    if ms.len() == 0 { d + h.skip(at) } else { restored_ms(ps, p, lim, ms.skip(1), h, ms[0].e, d + h.subrange(at, ms[0].s) + piece(ps, p, lim, num(ms[0].g[1]->0))) }
}
/// A text with what its marks stand for put in their places.
spec fn restored(ps: Seq<PassV>, p: Parser, lim: int, h: Seq<char>) -> Seq<char> { restored_ms(ps, p, lim, marks(h, 0), h, 0, Seq::empty()) }
impl<'p> Replacer for PassthroughRestoreReplacer<'p> {
    type St = (Seq<PassV>, Parser, int);
    spec fn st(&self) -> Self::St { (pvs(*self.0), *self.1, self.2 as int) }
    #[verifier::prophetic] spec fn fin(&self) -> Self::St { (pvs(*self.0), *self.1, self.2 as int) }
    spec fn can(s: Self::St, g: Groups) -> bool { g.len() == 2 && g[1] is Some && all_clean(s.0) }
    spec fn nx(s: Self::St, g: Groups, d: Seq<char>) -> (Self::St, Seq<char>) { (s, d + piece(s.0, s.1, s.2, num(g[1]->0))) }
    /// (As above: it uses itself, for earlier ones, through the contract that is proved below.)
    #[verifier::external_body] fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) { unimplemented!() }
}
proof fn lemma_marks(h: Seq<char>, i: int)
    requires 0 <= i
    ensures forall|j: int| 0 <= j < marks(h, i).len() ==> (#[trigger] marks(h, i)[j]).g.len() == 2 && marks(h, i)[j].g[1] is Some
    decreases h.len() - i
{
    if i < h.len() {
        let e = digits_end(h, i + 1);
        if h[i] == SM && i + 1 < e < h.len() && h[e] == EM { lemma_marks(h, e + 1); } else { lemma_marks(h, i + 1); }
    }
}
proof fn lemma_restored<'p>(ms: Seq<Cap>, h: Seq<char>, at: int, s: (Seq<PassV>, Parser, int), d: Seq<char>)
    requires forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).g.len() == 2 && ms[i].g[1] is Some, all_clean(s.0)
    ensures
        run::<PassthroughRestoreReplacer<'p>>(ms, h, at, s, d) == (s, restored_ms(s.0, s.1, s.2, ms, h, at, d)),
        runs::<PassthroughRestoreReplacer<'p>>(ms, h, at, s, d),
    decreases ms.len()
{
    if ms.len() > 0 {
        assert forall|i: int| 0 <= i < ms.skip(1).len() implies (#[trigger] ms.skip(1)[i]).g.len() == 2 && ms.skip(1)[i].g[1] is Some by { assert(ms.skip(1)[i] == ms[i + 1]); }
        lemma_restored(ms.skip(1), h, ms[0].e, s, d + h.subrange(at, ms[0].s) + piece(s.0, s.1, s.2, num(ms[0].g[1]->0)));
    }
}
//@fn content/passthroughs.rs | Replacer for PassthroughRestoreReplacer::replace_append
//@ name: vp_replace_append
//@ index: caps
//@ rename as_ref: vp_as_ref
//@ rename push_str: vp_push_str
//@ spec:
    requires PassthroughRestoreReplacer::can(old(self).st(), caps.g())
    ensures (final(self).st(), final(dest)@) == PassthroughRestoreReplacer::nx(old(self).st(), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ start:
    proof {
        assert("(INTERNAL ERROR: Unresolved passthrough index "@.len() > 0 && ")"@.len() > 0);
        assert(vstd::seq::Seq::<char>::empty() + "(INTERNAL ERROR: Unresolved passthrough index "@ =~= "(INTERNAL ERROR: Unresolved passthrough index "@);
        assert forall|i: int| 0 <= i < self.0.0@.len() implies clean((#[trigger] self.0.0@[i]).subs) && pv(self.0.0@[i]) == pvs(*self.0)[i] by { assert(clean(pvs(*self.0)[i].subs)); }
    }
//@ before if subbed_text.rendered().contains:
    proof { lemma_marks(text(subbed_text), 0); lemma_restored(marks(text(subbed_text), 0), text(subbed_text), 0, (pvs(*self.0), *self.1, index as int), Seq::empty()); }
//@ closure 0 params: _p: &&Passthrough
//@ closure 0:
    -> (o: bool) ensures o == (index < self.2)
//@ closure 1 params: attrlist_body: &String
//@ closure 1:
    -> (o: Attrlist<'_>) ensures o.v() == inline_attrs(attrlist_body@, *self.1)
//@ closure 2 params: attrlist: &Attrlist<'_>
//@ closure 2:
    -> (o: Option<String>) ensures otext(o) == id_of(attrlist.v())
//@ closure 3 params: id: &str
//@ closure 3:
    -> (o: String) ensures o@ == id@
//@end
//@fn content/passthroughs.rs | Passthroughs::extract_from
//@ rename as_ref: vp_as_ref
//@ spec:
    ensures
        final(content).original == old(content).original, all_clean(pvs(r)),
        (pvs(r), text(*final(content))) == taken_out(text(*old(content)))
//@ start:
    let ghost h = text(*content);
    let ghost t = macro_ms(macros_in(h), h, 0, Seq::empty(), Seq::empty()).1;
    let ghost s = macro_ms(macros_in(h), h, 0, Seq::empty(), Seq::empty()).0;
    proof {
        axiom_macros(h); axiom_plus(t);
        lemma_macro_ms(macros_in(h), h, 0, Seq::empty(), Seq::empty());
        lemma_plus_ms(plus_in(t), t, 0, s, Seq::empty());
        lemma_plus_clean(plus_in(t), t, 0, s, Seq::empty());
        assert(h.skip(0) =~= h); assert(t.skip(0) =~= t);
        assert(Seq::<char>::empty() + h =~= h); assert(Seq::<char>::empty() + t =~= t);
    }
//@ after let mut passthroughs:
    proof { assert(pvs(passthroughs) =~= Seq::empty()); }
//@end
/// The text without its passthroughs, and what they were.
spec fn taken_out(h: Seq<char>) -> (Seq<PassV>, Seq<char>) {
    let (s, t) = macro_ms(macros_in(h), h, 0, Seq::empty(), Seq::empty());
    plus_ms(plus_in(t), t, 0, s, Seq::empty())
}
//@fn content/passthroughs.rs | Passthroughs::restore_to
//@ rename as_ref: vp_as_ref
//@ spec:
    requires all_clean(pvs(*self))
    ensures
        final(content).original == old(content).original,
        text(*final(content)) == (if self.0@.len() == 0 { text(*old(content)) } else { restored(pvs(*self), *parser, self.0@.len() as int, text(*old(content))) })
//@ start:
    proof {
        let h = text(*content);
        lemma_marks(h, 0);
        lemma_restored(marks(h, 0), h, 0, (pvs(*self), *parser, self.0@.len() as int), Seq::empty());
        assert(h.skip(0) =~= h); assert(Seq::<char>::empty() + h =~= h);
    }
//@end
/// A passthrough without substitutions comes back as it was written, character for character.
proof fn lemma_raw(ps: Seq<PassV>, p: Parser, lim: int, k: int)
    requires 0 <= k < lim, k < ps.len(), ps[k].subs is None, ps[k].type_ is None, !ps[k].text.contains(SM)
    ensures piece(ps, p, lim, k) == ps[k].text
{ axiom_raw(ps[k].text, p); }
proof fn lemma_marks_shift(x: Seq<char>, b: Seq<char>, i: int)
    requires 0 <= i
    ensures
        marks(x + b, x.len() + i).len() == marks(b, i).len(),
        forall|j: int| 0 <= j < marks(b, i).len() ==> {
            let (m, n) = (#[trigger] marks(x + b, x.len() + i)[j], marks(b, i)[j]);
            m.s == n.s + x.len() && m.e == n.e + x.len() && m.g[1] == n.g[1] && i <= n.s <= n.e <= b.len() },
        forall|j: int| 0 <= j < marks(b, i).len() - 1 ==> (#[trigger] marks(b, i)[j]).e <= marks(b, i)[j + 1].s,
    decreases b.len() - i
{
    let h = x + b;
    let n = x.len() as int;
    if i < b.len() {
        lemma_digits_shift(x, b, i + 1);
        let e = digits_end(b, i + 1);
        assert(h[n + i] == b[i]);
        if b[i] == SM && i + 1 < e < b.len() && b[e] == EM {
            assert(h[n + e] == b[e]);
            lemma_marks_shift(x, b, e + 1);
            assert(h.subrange(n + i + 1, n + e) =~= b.subrange(i + 1, e));
            let r = marks(b, e + 1);
            assert forall|j: int| 0 <= j < marks(b, i).len() implies {
                let (m, n) = (#[trigger] marks(x + b, x.len() + i)[j], marks(b, i)[j]);
                m.s == n.s + x.len() && m.e == n.e + x.len() && m.g[1] == n.g[1] && i <= n.s <= n.e <= b.len() } by {
                if j > 0 { assert(marks(b, i)[j] == r[j - 1]); assert(marks(x + b, x.len() + i)[j] == marks(x + b, x.len() + e + 1)[j - 1]); }
            }
            assert forall|j: int| 0 <= j < marks(b, i).len() - 1 implies (#[trigger] marks(b, i)[j]).e <= marks(b, i)[j + 1].s by {
                assert(marks(b, i)[j + 1] == r[j]);
                assert(marks(h, n + e + 1)[j].s == r[j].s + n);
                if j > 0 { assert(marks(b, i)[j] == r[j - 1]); }
            }
        } else {
            if n + e < h.len() { assert(h[n + e] == b[e]); }
            lemma_marks_shift(x, b, i + 1);
        }
    }
}
proof fn lemma_digits_shift(x: Seq<char>, b: Seq<char>, i: int)
    requires 0 <= i <= b.len()
    ensures digits_end(x + b, x.len() + i) == digits_end(b, i) + x.len(), i <= digits_end(b, i) <= b.len()
    decreases b.len() - i
{ if i < b.len() { assert((x + b)[x.len() + i] == b[i]); if udigit(b[i]) { lemma_digits_shift(x, b, i + 1); } } }
/// Replacing the same matches, further on in a text, after more text.
proof fn lemma_ms_shift(ps: Seq<PassV>, p: Parser, lim: int, mx: Seq<Cap>, mb: Seq<Cap>, x: Seq<char>, b: Seq<char>, at: int, d: Seq<char>, c: Seq<char>)
    requires
        mx.len() == mb.len(), 0 <= at <= b.len(),
        forall|j: int| 0 <= j < mb.len() ==> (#[trigger] mx[j]).s == mb[j].s + x.len() && mx[j].e == mb[j].e + x.len() && mx[j].g[1] == mb[j].g[1] && at <= mb[j].s <= mb[j].e <= b.len(),
        forall|j: int| 0 <= j < mb.len() - 1 ==> (#[trigger] mb[j]).e <= mb[j + 1].s,
    ensures restored_ms(ps, p, lim, mx, x + b, x.len() + at, d + c) =~= d + restored_ms(ps, p, lim, mb, b, at, c)
    decreases mb.len()
{
    let h = x + b;
    let n = x.len() as int;
    if mb.len() == 0 { assert(h.skip(n + at) =~= b.skip(at)); } else {
        let q = piece(ps, p, lim, num(mb[0].g[1]->0));
        let (m0, b0) = (mx[0], mb[0]);
        assert(m0.s == b0.s + n);
        assert(h.subrange(n + at, m0.s) =~= b.subrange(at, b0.s));
        let c2 = c + b.subrange(at, b0.s) + q;
        assert(d + c + h.subrange(n + at, m0.s) + q =~= d + c2);
        assert forall|j: int| 0 <= j < mb.skip(1).len() implies (#[trigger] mx.skip(1)[j]).s == mb.skip(1)[j].s + x.len() && mx.skip(1)[j].e == mb.skip(1)[j].e + x.len() && mx.skip(1)[j].g[1] == mb.skip(1)[j].g[1] && b0.e <= mb.skip(1)[j].s <= mb.skip(1)[j].e <= b.len() by {
            assert(mx.skip(1)[j] == mx[j + 1]);
            lemma_order(mb, j + 1, mx, n, b.len() as int);
        }
        assert forall|j: int| 0 <= j < mb.skip(1).len() - 1 implies (#[trigger] mb.skip(1)[j]).e <= mb.skip(1)[j + 1].s by { assert(mb.skip(1)[j] == mb[j + 1]); }
        lemma_ms_shift(ps, p, lim, mx.skip(1), mb.skip(1), x, b, b0.e, d, c2);
    }
}
proof fn lemma_order(mb: Seq<Cap>, j: int, mx: Seq<Cap>, n: int, len: int)
    requires 1 <= j < mb.len(), mx.len() == mb.len(), forall|j: int| 0 <= j < mb.len() - 1 ==> (#[trigger] mb[j]).e <= mb[j + 1].s,
        forall|j: int| 0 <= j < mb.len() ==> (#[trigger] mx[j]).s == mb[j].s + n && mb[j].s <= mb[j].e <= len
    ensures mb[0].e <= mb[j].s
    decreases j
{
    assert(mb[j - 1].e <= mb[j].s);
    if j > 1 { lemma_order(mb, j - 1, mx, n, len); let z = mx[j - 1]; assert(mb[j - 1].s <= mb[j - 1].e); }
}
proof fn lemma_marks_skip(h: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= h.len(), forall|j: int| i <= j < k ==> h[j] != SM
    ensures marks(h, i) == marks(h, k)
    decreases k - i
{ if i < k { assert(h[i] != SM); lemma_marks_skip(h, i + 1, k); } }
/// A mark becomes what it stands for, and the text around it stays: nothing of the text before it changes, whatever follows it.
proof fn lemma_marker(ps: Seq<PassV>, p: Parser, lim: int, a: Seq<char>, k: int, b: Seq<char>)
    requires !a.contains(SM), 0 <= k <= usize::MAX
    ensures restored(ps, p, lim, a + mark(k) + b) =~= a + piece(ps, p, lim, k) + restored(ps, p, lim, b)
{
    let x = a + mark(k);
    let h = x + b;
    let n = a.len() as int;
    let w = dec(k);
    axiom_dec_digits(k); axiom_num(k);
    assert forall|j: int| 0 <= j < n implies h[j] != SM by { assert(h[j] == a[j]); }
    lemma_marks_skip(h, 0, n);
    assert(h[n] == SM);
    assert forall|j: int| 0 <= j < w.len() implies udigit(#[trigger] h[n + 1 + j]) by { assert(h[n + 1 + j] == w[j]); axiom_udigit(w[j]); }
    assert(h[n + 1 + w.len()] == EM);
    axiom_udigit(EM);
    lemma_digits_end(h, n + 1, n + 1 + w.len());
    let e = n + 1 + w.len();
    assert(e + 1 == x.len());
    assert(h.subrange(n + 1, e) =~= w);
    assert(h.subrange(0, n) =~= a);
    let ms = marks(h, 0);
    assert(ms.skip(1) =~= marks(h, e + 1));
    lemma_marks_shift(x, b, 0);
    lemma_ms_shift(ps, p, lim, marks(h, e + 1), marks(b, 0), x, b, 0, a + piece(ps, p, lim, k), Seq::empty());
    assert(Seq::<char>::empty() + h.subrange(0, n) + piece(ps, p, lim, k) =~= a + piece(ps, p, lim, k));
    assert(a + piece(ps, p, lim, k) + Seq::<char>::empty() =~= a + piece(ps, p, lim, k));
}
proof fn lemma_digits_end(h: Seq<char>, i: int, e: int)
    requires 0 <= i <= e < h.len(), !udigit(h[e]), forall|j: int| 0 <= j < e - i ==> udigit(#[trigger] h[i + j])
    ensures digits_end(h, i) == e
    decreases e - i
{ if i < e { assert(udigit(h[i + 0])); assert forall|j: int| 0 <= j < e - i - 1 implies udigit(#[trigger] h[i + 1 + j]) by { assert(h[i + (j + 1)] == h[i + 1 + j]); } lemma_digits_end(h, i + 1, e); } }
