// --- more of the span layer --------------------------------------------------

spec fn strip_cr(b: Seq<u8>) -> int { if b.len() > 0 && b[b.len() - 1] == 13 { b.len() - 1 } else { b.len() as int } }

//@fn span/line.rs | Span::take_non_empty_line
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == (norm_len(sb(self)) > 0),
        r is Some ==> wf((r->0).item) && wf((r->0).after) && part(self, (r->0).item, 0, norm_len(sb(self)))
            && part(self, (r->0).after, next_line(sb(self)), sb(self).len() as int) && next_line(sb(self)) > 0,
//@ start:
    proof {
        lemma_parts();
        lemma_eol(sb(self));
        lemma_norm(sb(self));
        assert forall|b: Seq<u8>, n: int, k: int| 0 <= n <= b.len() && #[trigger] no_trailing(b.subrange(0, n), k) implies k == spaces_off(b, n) by { lemma_no_trailing(b, n); }
        assert forall|n: int| 0 <= n <= sb(self).len() implies #[trigger] spaces_off(sb(self).subrange(0, n), strip_cr(sb(self).subrange(0, n))) == spaces_off(sb(self), strip_cr(sb(self).subrange(0, n))) by {
            lemma_spaces_pre(sb(self), n, strip_cr(sb(self).subrange(0, n)));
        }
        lemma_split_eol(self);
        assert(sb(self).subrange(0, eol(sb(self))).len() == eol(sb(self)));
    }
//@ closure 1 params: mi: MatchedItem<'src, Span<'src>>
//@ closure 1:
    -> (q: MatchedItem<'src, Span<'src>>)
    requires wf(mi.item), wf(mi.after)
    ensures
        wf(q.item), wf(q.after),
        part(mi.item, q.item, 0, spaces_off(sb(mi.item), strip_cr(sb(mi.item)))),
        part(mi.after, q.after, if sb(mi.after).len() > 0 && sb(mi.after)[0] == 10 { 1int } else { 0 }, sb(mi.after).len() as int),
//@ closure 2 params: line: &MatchedItem<'src, Span<'src>>
//@ closure 2:
    -> (q: bool) ensures q == (sb(line.item).len() > 0)
//@end

proof fn lemma_spaces_pre(b: Seq<u8>, n: int, m: int)
    requires 0 <= m <= n <= b.len()
    ensures spaces_off(b.subrange(0, n), m) == spaces_off(b, m)
    decreases m
{ if m > 0 && b[m - 1] == 32 { lemma_spaces_pre(b, n, m - 1); } }

/// Splitting at the first `\n` character is splitting at the first line end.
proof fn lemma_split_eol(s: Span)
    ensures
        forall|k: int| 0 <= k < s.data@.len() && s.data@[k] == '\n' && (forall|j: int| 0 <= j < k ==> s.data@[j] != '\n') ==> #[trigger] off(s.data@, k) == eol(sb(s)),
        (forall|j: int| 0 <= j < s.data@.len() ==> s.data@[j] != '\n') ==> eol(sb(s)) == sb(s).len(),
        s.data@.len() == 0 ==> eol(sb(s)) == 0,
        s.data@.len() > 0 && s.data@[0] == '\n' ==> eol(sb(s)) == 0,
        off(s.data@, s.data@.len() as int) == sb(s).len(),
{
    let t = s.data@;
    lemma_eol(sb(s));
    encode_utf8_decode_utf8(t);
    assert forall|k: int| 0 <= k <= t.len() && (k < t.len() ==> t[k] == '\n') && (forall|j: int| 0 <= j < k ==> t[j] != '\n') implies #[trigger] off(t, k) == eol(sb(s)) by {
        lemma_char_lf(t, k);
        lemma_off(t, k);
    }
    lemma_off(t, t.len() as int);
    lemma_off(t, 0);
    if t.len() == 0 { assert(off(t, 0) == 0); }
    if t.len() > 0 && t[0] == '\n' { assert(off(t, 0) == eol(sb(s))); }
    if forall|j: int| 0 <= j < t.len() ==> t[j] != '\n' { assert(off(t, t.len() as int) == eol(sb(s))); }
}

//@fn span/primitives.rs | Span::trim_remainder
//@ spec:
    requires wf(self), wf(after), self.offset < after.offset < self.offset + sb(self).len() ==> bdy(sb(self), after.offset - self.offset)
    ensures
        wf(r),
        part(self, r, 0, if after.offset <= self.offset { 0int } else if after.offset < self.offset + sb(self).len() { after.offset - self.offset } else { sb(self).len() as int }),
//@end

/// `k` is the length (in characters) of the longest text that starts with a character in `a`, and goes on with characters in `c`.
spec fn word(s: Seq<char>, a: spec_fn(char) -> bool, c: spec_fn(char) -> bool, k: int) -> bool {
    0 < k <= s.len() && a(s[0]) && (forall|j: int| 1 <= j < k ==> c(#[trigger] s[j])) && (k < s.len() ==> !c(s[k]))
}
spec fn word_split(s: Span, item: Span, after: Span, a: spec_fn(char) -> bool, c: spec_fn(char) -> bool) -> bool {
    splits(s, item, after, sb(item).len() as int) && exists|k: int| word(s.data@, a, c, k) && sb(item).len() == #[trigger] off(s.data@, k)
}
spec fn id1() -> spec_fn(char) -> bool { |c: char| ascii_alpha(c) || c == '_' }
spec fn id2() -> spec_fn(char) -> bool { |c: char| ascii_alnum(c) || c == '_' }
spec fn an1() -> spec_fn(char) -> bool { |c: char| ascii_alnum(c) }
spec fn an2() -> spec_fn(char) -> bool { |c: char| ascii_alnum(c) || c == '-' }
spec fn un2() -> spec_fn(char) -> bool { |c: char| ascii_alnum(c) || c == '_' || c == '-' }

//@fn span/primitives.rs | Span::take_ident
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == (self.data@.len() > 0 && id1()(self.data@[0])),
        r is Some ==> word_split(self, (r->0).item, (r->0).after, id1(), id2()),
//@ start:
    proof { assert forall|k: int| 0 <= k <= self.data@.len() implies #[trigger] off(self.data@, k) <= sb(self).len() && bdy(sb(self), off(self.data@, k)) by { lemma_off(self.data@, k); }
        lemma_off(self.data@, self.data@.len() as int); }
//@ loop 0:
    invariant
        1 <= __it0.k() <= __it0.s().len(), __it0.s() == self.data@, id1()(self.data@[0]),
        forall|j: int| 1 <= j < __it0.k() ==> id2()(#[trigger] self.data@[j]),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof { if !id2()(c) { assert(word(self.data@, id1(), id2(), __it0.k() - 1)); assert(index == off(self.data@, __it0.k() - 1)); } }
//@ loop 0 exit:
    proof { assert(word(self.data@, id1(), id2(), self.data@.len() as int)); }
//@end

//@fn span/primitives.rs | Span::take_attr_name
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == (self.data@.len() > 0 && an1()(self.data@[0])),
        r is Some ==> word_split(self, (r->0).item, (r->0).after, an1(), an2()),
//@ start:
    proof { assert forall|k: int| 0 <= k <= self.data@.len() implies #[trigger] off(self.data@, k) <= sb(self).len() && bdy(sb(self), off(self.data@, k)) by { lemma_off(self.data@, k); }
        lemma_off(self.data@, self.data@.len() as int); }
//@ loop 0:
    invariant
        1 <= __it0.k() <= __it0.s().len(), __it0.s() == self.data@, an1()(self.data@[0]),
        forall|j: int| 1 <= j < __it0.k() ==> an2()(#[trigger] self.data@[j]),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof { if !an2()(c) { assert(word(self.data@, an1(), an2(), __it0.k() - 1)); assert(index == off(self.data@, __it0.k() - 1)); } }
//@ loop 0 exit:
    proof { assert(word(self.data@, an1(), an2(), self.data@.len() as int)); }
//@end

//@fn span/primitives.rs | Span::take_user_attr_name
//@ spec:
    requires wf(self)
    ensures
        (r is Some) == (self.data@.len() > 0 && id2()(self.data@[0])),
        r is Some ==> word_split(self, (r->0).item, (r->0).after, id2(), un2()),
//@ start:
    proof { assert forall|k: int| 0 <= k <= self.data@.len() implies #[trigger] off(self.data@, k) <= sb(self).len() && bdy(sb(self), off(self.data@, k)) by { lemma_off(self.data@, k); }
        lemma_off(self.data@, self.data@.len() as int); }
//@ loop 0:
    invariant
        1 <= __it0.k() <= __it0.s().len(), __it0.s() == self.data@, id2()(self.data@[0]),
        forall|j: int| 1 <= j < __it0.k() ==> un2()(#[trigger] self.data@[j]),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof { if !un2()(c) { assert(word(self.data@, id2(), un2(), __it0.k() - 1)); assert(index == off(self.data@, __it0.k() - 1)); } }
//@ loop 0 exit:
    proof { assert(word(self.data@, id2(), un2(), self.data@.len() as int)); }
//@end

/// The character at `k` closes the string that a `q` at 0 opens: the first `q` not right after a backslash.
spec fn closes(s: Seq<char>, q: char, k: int) -> bool {
    0 < k < s.len() && s[k] == q && (k > 1 ==> s[k - 1] != '\\') && forall|j: int| 1 <= j < k ==> !(#[trigger] s[j] == q && (j == 1 || s[j - 1] != '\\'))
}

//@fn span/primitives.rs | Span::take_quoted_string
//@ spec:
    requires wf(self)
    ensures
        r is Some ==> self.data@.len() > 0 && (self.data@[0] == '"' || self.data@[0] == '\'')
            && wf((r->0).item) && wf((r->0).after)
            && exists|k: int| closes(self.data@, self.data@[0], k) && part(self, (r->0).item, 1, #[trigger] off(self.data@, k)) && part(self, (r->0).after, off(self.data@, k) + 1, sb(self).len() as int),
        r is None ==> self.data@.len() == 0 || (self.data@[0] != '"' && self.data@[0] != '\'') || forall|k: int| !#[trigger] closes(self.data@, self.data@[0], k),
//@ start:
    proof {
        assert forall|k: int| 0 <= k < self.data@.len() && (self.data@[k] as u32) < 128 implies #[trigger] off(self.data@, k) + 1 <= sb(self).len() && bdy(sb(self), off(self.data@, k)) && bdy(sb(self), off(self.data@, k) + 1) && (k > 0 ==> off(self.data@, k) >= 1) by {
            lemma_off_next(self.data@, k); lemma_off(self.data@, k); lemma_off(self.data@, k + 1);
        }
        if self.data@.len() > 0 { assert(off(self.data@, 0) == 0) by { lemma_off(self.data@, 0); } }
    }
//@ loop 0:
    invariant
        1 <= __it0.k() <= __it0.s().len(), __it0.s() == self.data@, delimiter == self.data@[0], delimiter == '"' || delimiter == '\'',
        prev_was_backslash == (__it0.k() > 1 && self.data@[__it0.k() - 1] == '\\'),
        forall|j: int| 1 <= j < __it0.k() ==> !(#[trigger] self.data@[j] == delimiter && (j == 1 || self.data@[j - 1] != '\\')),
    decreases __it0.s().len() - __it0.k()
//@ loop 0 start:
    proof { if c == delimiter && !prev_was_backslash { assert(closes(self.data@, delimiter, __it0.k() - 1)); assert(index == off(self.data@, __it0.k() - 1)); } }
//@end
