// --- C10: special characters ------------------------------------------------------------
//@pattern content/substitution_step.rs | SPECIAL_CHARS | "[<>&]"
struct SPECIAL_CHARS;
spec fn special(c: char) -> bool { c == '<' || c == '>' || c == '&' }
/// The matches of `[<>&]`, from `i` on.
spec fn specials(h: Seq<char>, i: int) -> Seq<Cap> decreases h.len() - i {
    if i < 0 || i >= h.len() { Seq::empty() } else if special(h[i]) { seq![Cap { s: i, e: i + 1, g: seq![Some(seq![h[i]])] }] + specials(h, i + 1) } else { specials(h, i + 1) }
}
impl VpRegex for SPECIAL_CHARS { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { specials(h, 0) } }

spec fn kind(c: char) -> SpecialCharacter { if c == '<' { SpecialCharacter::Lt } else if c == '>' { SpecialCharacter::Gt } else { SpecialCharacter::Ampersand } }
/// `h` from `i` on, written after `d`: special characters as the renderer has it, others as they are.
spec fn escaped_by(r: &dyn InlineSubstitutionRenderer, h: Seq<char>, i: int, d: Seq<char>) -> Seq<char> decreases h.len() - i {
    if i < 0 || i >= h.len() { d } else if special(h[i]) { escaped_by(r, h, i + 1, r.special_out(kind(h[i]), d)) } else { escaped_by(r, h, i + 1, d.push(h[i])) }
}
impl<'r> Replacer for SpecialCharacterReplacer<'r> {
    type St = &'r dyn InlineSubstitutionRenderer;
    spec fn st(&self) -> Self::St { self.renderer }
    #[verifier::prophetic] spec fn fin(&self) -> Self::St { self.renderer }
    spec fn can(s: Self::St, g: Groups) -> bool { g.len() == 1 && g[0] is Some && g[0]->0.len() == 1 && special(g[0]->0[0]) }
    spec fn nx(s: Self::St, g: Groups, d: Seq<char>) -> (Self::St, Seq<char>) { (s, s.special_out(kind(g[0]->0[0]), d)) }
    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) { self.vp_replace_append(caps, dest) }
}
//@fn content/substitution_step.rs | Replacer for SpecialCharacterReplacer::replace_append
//@ name: vp_replace_append
//@ index: caps
//@ spec:
    requires SpecialCharacterReplacer::can(old(self).st(), caps.g())
    ensures (final(self).st(), final(dest)@) == SpecialCharacterReplacer::nx(old(self).st(), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ start:
    proof { let t = caps.g()[0]->0; assert(t == seq![t[0]]); }
//@end
proof fn lemma_escapes<'r>(r: &'r dyn InlineSubstitutionRenderer, h: Seq<char>, at: int, i: int, d: Seq<char>)
    requires 0 <= at <= i <= h.len()
    ensures
        run::<SpecialCharacterReplacer<'r>>(specials(h, i), h, at, r, d).1 == escaped_by(r, h, i, d + h.subrange(at, i)),
        runs::<SpecialCharacterReplacer<'r>>(specials(h, i), h, at, r, d),
    decreases h.len() - i
{
    if i < h.len() {
        if special(h[i]) {
            let ms = specials(h, i);
            let d2 = r.special_out(kind(h[i]), d + h.subrange(at, i));
            lemma_escapes(r, h, i + 1, i + 1, d2);
            assert(ms.skip(1) =~= specials(h, i + 1));
            assert(d2 + h.subrange(i + 1, i + 1) =~= d2);
        } else {
            lemma_escapes(r, h, at, i + 1, d);
            assert(d + h.subrange(at, i + 1) =~= (d + h.subrange(at, i)).push(h[i]));
        }
    } else { assert(h.skip(at) =~= h.subrange(at, i)); }
}
proof fn lemma_no_special(r: &dyn InlineSubstitutionRenderer, h: Seq<char>, i: int, d: Seq<char>)
    requires 0 <= i <= h.len(), forall|k: int| 0 <= k < h.len() ==> !special(#[trigger] h[k])
    ensures escaped_by(r, h, i, d) =~= d + h.skip(i), specials(h, i).len() == 0
    decreases h.len() - i
{ if i < h.len() { lemma_no_special(r, h, i + 1, d.push(h[i])); assert(h.skip(i) =~= seq![h[i]] + h.skip(i + 1)); } }
proof fn lemma_none(r: &dyn InlineSubstitutionRenderer, h: Seq<char>, i: int, d: Seq<char>)
    requires 0 <= i <= h.len()
    ensures specials(h, i).len() == 0 ==> escaped_by(r, h, i, d) =~= d + h.skip(i)
    decreases h.len() - i
{ if i < h.len() && !special(h[i]) { lemma_none(r, h, i + 1, d.push(h[i])); assert(h.skip(i) =~= seq![h[i]] + h.skip(i + 1)); } }

//@fn content/substitution_step.rs | apply_special_characters
//@ spec:
    ensures
        final(content).original == old(content).original,
        text(*final(content)) == escaped_by(renderer, text(*old(content)), 0, Seq::empty()),
//@ start:
    let ghost h = text(*content);
    proof {
        lemma_escapes(renderer, h, 0, 0, Seq::empty());
        lemma_none(renderer, h, 0, Seq::empty());
        if forall|k: int| 0 <= k < h.len() ==> !special(#[trigger] h[k]) { lemma_no_special(renderer, h, 0, Seq::empty()); }
        assert(h.skip(0) =~= h);
        assert(Seq::<char>::empty() + h =~= h);
        assert(Seq::<char>::empty() + h.subrange(0, 0) =~= Seq::<char>::empty());
        let a = ['<', '>', '&'];
        assert(a@.contains('<')) by { assert(a@[0] == '<'); }
        assert(a@.contains('>')) by { assert(a@[1] == '>'); }
        assert(a@.contains('&')) by { assert(a@[2] == '&'); }
        assert forall|c: char| a@.contains(c) implies special(c) by {}
    }
//@end

/// The HTML renderer's.
spec fn entity(c: char) -> Seq<char> { if c == '<' { "&lt;"@ } else if c == '>' { "&gt;"@ } else { "&amp;"@ } }
spec fn code(c: char) -> Seq<char> { if special(c) { entity(c) } else { seq![c] } }
/// The text with each `<`, `>` and `&` as its entity, once.
spec fn esc(h: Seq<char>) -> Seq<char> decreases h.len() { if h.len() == 0 { h } else { code(h[0]) + esc(h.skip(1)) } }
//@type parser/inline_substitution_renderer.rs | HtmlSubstitutionRenderer
impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
    spec fn special_out(&self, k: SpecialCharacter, d: Seq<char>) -> Seq<char> { html_out(k, d) }
    fn render_special_character(&self, type_: SpecialCharacter, dest: &mut String) { self.vp_html_special(type_, dest) }
}
//@fn parser/inline_substitution_renderer.rs | InlineSubstitutionRenderer for HtmlSubstitutionRenderer::render_special_character
//@ name: vp_html_special
//@ spec:
    ensures final(dest)@ == self.special_out(type_, old(dest)@)
//@end
spec fn html_out(k: SpecialCharacter, d: Seq<char>) -> Seq<char> { d + (match k { SpecialCharacter::Lt => "&lt;"@, SpecialCharacter::Gt => "&gt;"@, SpecialCharacter::Ampersand => "&amp;"@ }) }
proof fn lemma_html(r: &dyn InlineSubstitutionRenderer, h: Seq<char>, i: int, d: Seq<char>)
    requires 0 <= i <= h.len(), forall|k: SpecialCharacter, d: Seq<char>| #[trigger] r.special_out(k, d) == html_out(k, d)
    ensures escaped_by(r, h, i, d) =~= d + esc(h.skip(i))
    decreases h.len() - i
{
    if i < h.len() {
        assert(h.skip(i)[0] == h[i]);
        assert(h.skip(i).skip(1) =~= h.skip(i + 1));
        lemma_html(r, h, i + 1, if special(h[i]) { r.special_out(kind(h[i]), d) } else { d.push(h[i]) });
        assert(d + (code(h[i]) + esc(h.skip(i + 1))) =~= (d + code(h[i])) + esc(h.skip(i + 1)));
        assert(d.push(h[i]) =~= d + seq![h[i]]);
    } else { assert(h.skip(i) =~= Seq::empty()); }
}
/// The HTML renderer is such a one.
fn html_is_one(h: &HtmlSubstitutionRenderer, t: Ghost<Seq<char>>) {
    let r: &dyn InlineSubstitutionRenderer = h;
    proof {
        assert forall|k: SpecialCharacter, d: Seq<char>| #[trigger] r.special_out(k, d) == html_out(k, d) by {}
        lemma_html(r, t@, 0, Seq::empty());
        assert(t@.skip(0) =~= t@);
        assert(escaped_by(r, t@, 0, Seq::empty()) =~= esc(t@));
    }
}
proof fn lemma_entities()
    ensures "&lt;"@ =~= seq!['&', 'l', 't', ';'], "&gt;"@ =~= seq!['&', 'g', 't', ';'], "&amp;"@ =~= seq!['&', 'a', 'm', 'p', ';']
{ reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&amp;"); }
/// Nothing is lost, nothing is escaped twice: different texts stay different.
proof fn lemma_esc_injective(a: Seq<char>, b: Seq<char>)
    requires esc(a) == esc(b)
    ensures a =~= b
    decreases a.len()
{
    lemma_entities();
    if a.len() > 0 && b.len() > 0 {
        let (x, y) = (code(a[0]) + esc(a.skip(1)), code(b[0]) + esc(b.skip(1)));
        assert(x == y);
        assert(x[0] == code(a[0])[0] && y[0] == code(b[0])[0]);
        if special(a[0]) || special(b[0]) {
            assert(special(a[0]) && special(b[0]));
            assert(x[1] == code(a[0])[1] && y[1] == code(b[0])[1]);
        }
        assert(a[0] == b[0]);
        let n = code(a[0]).len() as int;
        assert(x.skip(n) =~= esc(a.skip(1)));
        assert(y.skip(n) =~= esc(b.skip(1)));
        lemma_esc_injective(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else if a.len() > 0 { assert(code(a[0]).len() > 0); assert((code(a[0]) + esc(a.skip(1))).len() > 0); assert(esc(b).len() == 0); }
    else if b.len() > 0 { assert(code(b[0]).len() > 0); assert((code(b[0]) + esc(b.skip(1))).len() > 0); assert(esc(a).len() == 0); }
}
/// What comes out has no `<` or `>`, and a `&` only at the start of an entity.
proof fn lemma_esc_safe(h: Seq<char>, k: int)
    requires 0 <= k < esc(h).len()
    ensures
        esc(h)[k] != '<' && esc(h)[k] != '>',
        esc(h)[k] == '&' ==> starts(esc(h).skip(k), "&lt;"@) || starts(esc(h).skip(k), "&gt;"@) || starts(esc(h).skip(k), "&amp;"@),
    decreases h.len()
{
    lemma_entities();
    if h.len() > 0 {
        let c = code(h[0]);
        let e = c + esc(h.skip(1));
        assert(esc(h) == e);
        if k >= c.len() {
            lemma_esc_safe(h.skip(1), k - c.len());
            assert(e.skip(k) =~= esc(h.skip(1)).skip(k - c.len()));
        } else {
            assert(e[k] == c[k]);
            if k == 0 && special(h[0]) { assert(e.skip(0).take(c.len() as int) =~= c); }
        }
    }
}
