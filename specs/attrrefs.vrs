// --- C17: attribute references ----------------------------------------------------------
//@pattern content/substitution_step.rs | ATTRIBUTE_REFERENCE | r#"\\?\{([A-Za-z0-9_][A-Za-z0-9_-]*)\}"#
struct ATTRIBUTE_REFERENCE;
spec fn name_char(c: char) -> bool { ascii_alnum(c) || c == '_' || c == '-' }
/// Where the characters of a name end.
spec fn name_end(h: Seq<char>, i: int) -> int decreases h.len() - i { if 0 <= i < h.len() && name_char(h[i]) { name_end(h, i + 1) } else { i } }
spec fn at(h: Seq<char>, i: int, c: char) -> bool { 0 <= i < h.len() && h[i] == c }
/// `{name}` at `i`: where its name ends.
spec fn ref_at(h: Seq<char>, i: int) -> Option<int> {
    if at(h, i, '{') && i + 1 < h.len() && name_char(h[i + 1]) && h[i + 1] != '-' && at(h, name_end(h, i + 1), '}') { Some(name_end(h, i + 1)) } else { None }
}
/// The matches of `\\?\{([A-Za-z0-9_][A-Za-z0-9_-]*)\}`, from `i` on.
spec fn refs(h: Seq<char>, i: int) -> Seq<Cap> decreases h.len() - i {
    if i < 0 || i >= h.len() { Seq::empty() } else {
        let b = if h[i] == '\\' { i + 1 } else { i };
        match ref_at(h, b) {
            Some(e) if e >= i => seq![Cap { s: i, e: e + 1, g: seq![Some(h.subrange(i, e + 1)), Some(h.subrange(b + 1, e))] }] + refs(h, e + 1),
            _ => refs(h, i + 1),
        }
    }
}
impl VpRegex for ATTRIBUTE_REFERENCE { spec fn finds(&self, h: Seq<char>) -> Seq<Cap> { refs(h, 0) } }

/// The value of an attribute, as `attribute_value` reports it.
spec fn value_of(p: Parser, n: Seq<char>) -> Val { if env(p).dom().contains(n) { effective(defaults(p), n, env(p)[n].1) } else { Val::Unset } }
/// What is written for a reference: `m` (with its backslash, if any) to the attribute `n`.
spec fn ref_text(p: Parser, m: Seq<char>, n: Seq<char>) -> Seq<char> {
    if !env(p).dom().contains(n) { m }
    else if m.len() > 0 && m[0] == '\\' { m.skip(1) }
    else { match value_of(p, n) { Val::Text(v) => v, _ => Seq::empty() } }
}
impl<'p> Replacer for AttributeReplacer<'p> {
    type St = &'p Parser;
    spec fn st(&self) -> Self::St { self.0 }
    #[verifier::prophetic] spec fn fin(&self) -> Self::St { self.0 }
    spec fn can(s: Self::St, g: Groups) -> bool { g.len() == 2 && g[0] is Some && g[1] is Some }
    spec fn nx(s: Self::St, g: Groups, d: Seq<char>) -> (Self::St, Seq<char>) { (s, d + ref_text(*s, g[0]->0, g[1]->0)) }
    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) { self.vp_replace_append(caps, dest) }
}
//@fn content/substitution_step.rs | Replacer for AttributeReplacer::replace_append
//@ name: vp_replace_append
//@ index: caps
//@ rename as_ref: vp_as_ref
//@ spec:
    requires AttributeReplacer::can(old(self).st(), caps.g())
    ensures (final(self).st(), final(dest)@) == AttributeReplacer::nx(old(self).st(), caps.g(), old(dest)@), final(self).fin() == old(self).fin()
//@ start:
    let ghost m = caps.g()[0]->0;
    proof {
        if m.len() > 0 && m[0] == '\\' { assert(m.take(1) =~= seq!['\\']); }
        if starts(m, seq!['\\']) { assert(m.take(1)[0] == m[0]); }
        assert(old(dest)@ + Seq::<char>::empty() =~= old(dest)@);
        lemma_cut(m);
        lemma_after_first(m);
    }
//@end
proof fn lemma_after_first(m: Seq<char>)
    ensures m.len() > 0 && (m[0] as u32) < 128 ==> off(m, 1) == 1
{
    if m.len() > 0 && (m[0] as u32) < 128 { assert(m.take(1) =~= seq![m[0]]); lemma_enc_ascii(m[0]); }
}
/// `h` from `i` on, with its references replaced (what they are replaced by is not looked at again).
spec fn substituted(p: Parser, h: Seq<char>, i: int) -> Seq<char> decreases h.len() - i {
    if i < 0 || i >= h.len() { Seq::empty() } else {
        let b = if h[i] == '\\' { i + 1 } else { i };
        match ref_at(h, b) {
            Some(e) if e >= i => ref_text(p, h.subrange(i, e + 1), h.subrange(b + 1, e)) + substituted(p, h, e + 1),
            _ => seq![h[i]] + substituted(p, h, i + 1),
        }
    }
}
proof fn lemma_name_end(h: Seq<char>, i: int)
    ensures name_end(h, i) >= i, 0 <= i <= h.len() ==> name_end(h, i) <= h.len()
    decreases h.len() - i
{ if 0 <= i < h.len() && name_char(h[i]) { lemma_name_end(h, i + 1); } }
proof fn lemma_refs<'p>(p: &'p Parser, h: Seq<char>, at: int, i: int, d: Seq<char>)
    requires 0 <= at <= i <= h.len()
    ensures
        run::<AttributeReplacer<'p>>(refs(h, i), h, at, p, d).1 =~= d + h.subrange(at, i) + substituted(*p, h, i),
        runs::<AttributeReplacer<'p>>(refs(h, i), h, at, p, d),
    decreases h.len() - i
{
    if i < h.len() {
        let b = if h[i] == '\\' { i + 1 } else { i };
        lemma_name_end(h, b + 1);
        match ref_at(h, b) {
            Some(e) if e >= i => {
                let ms = refs(h, i);
                let t = ref_text(*p, h.subrange(i, e + 1), h.subrange(b + 1, e));
                let d2 = d + h.subrange(at, i) + t;
                lemma_refs(p, h, e + 1, e + 1, d2);
                assert(ms.skip(1) =~= refs(h, e + 1));
                assert(h.subrange(e + 1, e + 1) =~= Seq::<char>::empty());
                assert(d2 + h.subrange(e + 1, e + 1) + substituted(*p, h, e + 1) =~= d + h.subrange(at, i) + (t + substituted(*p, h, e + 1)));
            }
            _ => {
                lemma_refs(p, h, at, i + 1, d);
                assert(d + h.subrange(at, i + 1) + substituted(*p, h, i + 1) =~= d + h.subrange(at, i) + (seq![h[i]] + substituted(*p, h, i + 1)));
            }
        }
    } else { assert(h.skip(at) =~= h.subrange(at, i)); }
}
proof fn lemma_no_refs(p: Parser, h: Seq<char>, i: int)
    requires 0 <= i <= h.len()
    ensures refs(h, i).len() == 0 ==> substituted(p, h, i) =~= h.skip(i), !h.contains('{') ==> refs(h, i).len() == 0
    decreases h.len() - i
{
    if i < h.len() {
        let b = if h[i] == '\\' { i + 1 } else { i };
        lemma_name_end(h, b + 1);
        lemma_no_refs(p, h, i + 1);
        assert(h.skip(i) =~= seq![h[i]] + h.skip(i + 1));
        if !h.contains('{') && at(h, b, '{') { assert(h.contains(h[b])); }
    }
}
//@fn content/substitution_step.rs | apply_attributes
//@ spec:
    ensures
        final(content).original == old(content).original,
        text(*final(content)) == substituted(*parser, text(*old(content)), 0),
//@ start:
    let ghost h = text(*content);
    proof {
        lemma_refs(parser, h, 0, 0, Seq::empty());
        lemma_no_refs(*parser, h, 0);
        assert(h.skip(0) =~= h);
        assert(Seq::<char>::empty() + h.subrange(0, 0) + substituted(*parser, h, 0) =~= substituted(*parser, h, 0));
    }
//@end
