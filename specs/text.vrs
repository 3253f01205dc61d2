// ---------------------------------------------------------------------------
// Text: a `&str` is modelled by its bytes, `s.spec_bytes()`, which vstd defines
// as the UTF-8 encoding of its characters. Everything in this part is proved,
// from vstd's definition of UTF-8.
// ---------------------------------------------------------------------------

mod text {
use super::*;
broadcast use vstd::string::group_string_axioms;

/// UTF-8 continuation byte.
pub open spec fn cont(b: u8) -> bool { 0x80 <= b < 0xc0 }

/// Char boundary. (Proved equal to vstd's for valid text in `lemma_bdy`.)
pub open spec fn bdy(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && (i == b.len() || !cont(b[i])) }

/// Text is valid UTF-8; every `&str` is.
pub open spec fn valid(b: Seq<u8>) -> bool { valid_utf8(b) }

pub proof fn lemma_bdy(b: Seq<u8>, i: int)
    requires valid(b), 0 <= i <= b.len()
    ensures is_char_boundary(b, i) == bdy(b, i)
{
    if i < b.len() {
        is_char_boundary_iff_not_is_continuation_byte(b, i);
        let x = b[i];
        assert(is_continuation_byte(x) == cont(x)) by {
            assert(((x & 0xc0u8) == 0x80) == (0x80 <= x && x < 0xc0)) by (bit_vector);
        }
    } else {
        is_char_boundary_start_end_of_seq(b);
    }
}

/// Every `&str` holds valid UTF-8.
pub broadcast proof fn lemma_str_valid(s: &str)
    ensures valid(#[trigger] s.spec_bytes())
{ encode_utf8_valid_utf8(s@); }

/// The first byte of a text starts a character.
pub proof fn lemma_first(b: Seq<u8>)
    requires valid(b)
    ensures bdy(b, 0)
{
    lemma_bdy(b, 0);
    is_char_boundary_start_end_of_seq(b);
}

/// The UTF-8 encoding of one character.
pub open spec fn enc(c: char) -> Seq<u8> { encode_utf8(seq![c]) }

pub broadcast proof fn lemma_enc_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] enc(c) =~= seq![c as u8]
{
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::empty());
    let x = c as u32;
    assert(x & 0x7F == x) by (bit_vector) requires x < 128u32;
}

/// An ASCII byte is a whole character.
pub proof fn lemma_after_ascii(b: Seq<u8>, i: int)
    requires valid(b), 0 <= i < b.len(), b[i] < 0x80
    ensures bdy(b, i), bdy(b, i + 1)
    decreases b.len()
{
    let n = length_of_first_scalar(b);
    let p = pop_first_scalar(b);
    assert(valid_first_scalar(b));
    assert(valid_utf8(p));
    assert(p =~= b.subrange(n, b.len() as int));
    lemma_first(p);
    lemma_first(b);
    if i >= n { lemma_after_ascii(p, i - n); }
}

pub proof fn lemma_ascii_bdy(s: &str, i: int)
    requires 0 <= i < s.spec_bytes().len(), s.spec_bytes()[i] < 0x80
    ensures bdy(s.spec_bytes(), i), bdy(s.spec_bytes(), i + 1)
{ lemma_str_valid(s); lemma_after_ascii(s.spec_bytes(), i); }

pub broadcast proof fn lemma_str_ends(s: &str)
    ensures #![trigger s.spec_bytes()] bdy(s.spec_bytes(), 0), bdy(s.spec_bytes(), s.spec_bytes().len() as int)
{ lemma_str_valid(s); lemma_first(s.spec_bytes()); }

pub open spec fn ascii_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }

/// ASCII characters are encoded one to one.
pub proof fn lemma_ascii_seq(s: Seq<char>)
    requires ascii_chars(s)
    ensures encode_utf8(s) =~= s.map_values(|c: char| c as u8)
    decreases s.len()
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 {
        assert(ascii_chars(s.drop_first())) by {
            assert forall|i: int| 0 <= i < s.drop_first().len() implies (#[trigger] s.drop_first()[i] as u32) < 128 by { assert(s.drop_first()[i] == s[i + 1]); }
        }
        lemma_ascii_seq(s.drop_first());
        let c = s[0];
        let x = c as u32;
        assert((s[0] as u32) < 128);
        assert(x & 0x7F == x) by (bit_vector) requires x < 128u32;
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] encode_utf8(s)[i] == s[i] as u8 by {
            if i > 0 { assert(s.drop_first()[i - 1] == s[i]); }
        }
    }
}

/// The bytes of an ASCII string literal (after `reveal_strlit`).
pub proof fn lemma_lit(s: &str)
    ensures ascii_chars(s@) ==> s.spec_bytes() =~= s@.map_values(|c: char| c as u8)
{ if ascii_chars(s@) { lemma_ascii_seq(s@); } }

/// Number of line feeds.
pub open spec fn nl(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { nl(b.drop_last()) + if b.last() == 10 { 1nat } else { 0 } }
}

/// Number of characters.
pub open spec fn nch(b: Seq<u8>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { nch(b.drop_last()) + if cont(b.last()) { 0nat } else { 1 } }
}

/// The column reached from column `c0` after reading `b`.
pub open spec fn col_after(c0: int, b: Seq<u8>) -> int decreases b.len() {
    if b.len() == 0 { c0 } else if b.last() == 10 { 1 } else { col_after(c0, b.drop_last()) + if cont(b.last()) { 0int } else { 1 } }
}

pub proof fn lemma_nl_add(a: Seq<u8>, b: Seq<u8>)
    ensures nl(a + b) == nl(a) + nl(b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_nl_add(a, b.drop_last());
    } else { assert(a + b =~= a); }
}

pub proof fn lemma_nch_add(a: Seq<u8>, b: Seq<u8>)
    ensures nch(a + b) == nch(a) + nch(b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_nch_add(a, b.drop_last());
    } else { assert(a + b =~= a); }
}

pub proof fn lemma_col_add(c0: int, a: Seq<u8>, b: Seq<u8>)
    ensures col_after(c0, a + b) == col_after(col_after(c0, a), b)
    decreases b.len()
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_col_add(c0, a, b.drop_last());
    } else { assert(a + b =~= a); }
}

pub proof fn lemma_nl_bound(b: Seq<u8>)
    ensures nl(b) <= b.len(), nch(b) <= b.len()
    decreases b.len()
{ if b.len() > 0 { lemma_nl_bound(b.drop_last()); } }

pub proof fn lemma_nl_zero(b: Seq<u8>)
    ensures nl(b) == 0 <==> forall|i: int| 0 <= i < b.len() ==> b[i] != 10
    decreases b.len()
{
    if b.len() > 0 {
        lemma_nl_zero(b.drop_last());
        assert forall|i: int| 0 <= i < b.len() - 1 implies b.drop_last()[i] == b[i] by {}
        if nl(b) == 0 { assert forall|i: int| 0 <= i < b.len() implies b[i] != 10 by { if i < b.len() - 1 { assert(b.drop_last()[i] != 10); } } }
        if forall|i: int| 0 <= i < b.len() ==> b[i] != 10 {
            assert forall|i: int| 0 <= i < b.drop_last().len() implies b.drop_last()[i] != 10 by { assert(b[i] != 10); }
            assert(b[b.len() - 1] != 10);
        }
    }
}

/// Without a line feed, the column advances by the number of characters.
pub proof fn lemma_col_same_line(c0: int, b: Seq<u8>)
    requires nl(b) == 0
    ensures col_after(c0, b) == c0 + nch(b)
    decreases b.len()
{ if b.len() > 0 { lemma_col_same_line(c0, b.drop_last()); } }

/// After the last line feed, columns count from 1.
pub proof fn lemma_col_new_line(c0: int, b: Seq<u8>, i: int)
    requires 0 <= i < b.len(), b[i] == 10, forall|j: int| i < j < b.len() ==> b[j] != 10
    ensures col_after(c0, b) == 1 + nch(b.subrange(i + 1, b.len() as int))
{
    let a = b.subrange(0, i + 1);
    let t = b.subrange(i + 1, b.len() as int);
    assert(b =~= a + t);
    lemma_col_add(c0, a, t);
    assert(a.last() == 10);
    lemma_nl_zero(t);
    lemma_col_same_line(1, t);
}

pub proof fn lemma_col_bound(c0: int, b: Seq<u8>)
    requires c0 >= 1
    ensures 1 <= col_after(c0, b) <= c0 + b.len()
    decreases b.len()
{ if b.len() > 0 { lemma_col_bound(c0, b.drop_last()); } }

// --- characters and bytes ---------------------------------------------------

/// Byte offset of character `k`.
pub open spec fn off(s: Seq<char>, k: int) -> int { encode_utf8(s.take(k)).len() as int }

pub proof fn lemma_off(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        0 <= off(s, k) <= encode_utf8(s).len(),
        encode_utf8(s).subrange(0, off(s, k)) =~= encode_utf8(s.take(k)),
        encode_utf8(s).subrange(off(s, k), encode_utf8(s).len() as int) =~= encode_utf8(s.skip(k)),
        bdy(encode_utf8(s), off(s, k)),
        off(s, k) == encode_utf8(s).len() <==> k == s.len(),
        off(s, k) == 0 <==> k == 0,
{
    let (a, b) = (s.take(k), s.skip(k));
    assert(s =~= a + b);
    encode_utf8_concat(a, b);
    encode_utf8_valid_utf8(s);
    encode_utf8_valid_utf8(b);
    lemma_first(encode_utf8(b));
    lemma_enc_pos(a);
    lemma_enc_pos(b);
}

/// Every character takes at least one byte.
pub proof fn lemma_enc_pos(s: Seq<char>)
    ensures encode_utf8(s).len() >= s.len()
    decreases s.len()
{
    reveal_with_fuel(encode_utf8, 2);
    if s.len() > 0 { lemma_enc_pos(s.drop_first()); }
}

/// Text with the same bytes has the same characters.
pub proof fn lemma_view(a: &str, s: Seq<char>)
    requires a.spec_bytes() =~= encode_utf8(s)
    ensures a@ == s
{ encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(a@); }

/// The first byte of a text tells whether its first character is ASCII, and which.
pub proof fn lemma_first_byte(s: Seq<char>)
    requires s.len() > 0
    ensures
        encode_utf8(s).len() > 0,
        (s[0] as u32) < 128 ==> encode_utf8(s)[0] == s[0] as u8,
        (s[0] as u32) >= 128 ==> encode_utf8(s)[0] >= 0x80,
{
    reveal_with_fuel(encode_utf8, 2);
    lemma_enc_pos(s);
    let x = s[0] as u32;
    assert(x < 128 ==> x & 0x7F == x) by (bit_vector);
    let b = encode_utf8(s);
    let c1 = seq![s[0]];
    assert(s =~= c1 + s.drop_first());
    encode_utf8_concat(c1, s.drop_first());
    if x < 128 { lemma_enc_ascii(s[0]); }
    else {
        encode_utf8_valid_utf8(s);
        if b[0] < 0x80 {
            encode_utf8_first_scalar(s);
            let n = length_of_first_scalar(b);
            assert(n == 1);
        }
    }
}

/// A character other than `\n` has no byte 10 in its encoding.
pub proof fn lemma_no_lf(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] != '\n'
    ensures forall|i: int| 0 <= i < off(s, k) ==> encode_utf8(s)[i] != 10
    decreases k
{
    lemma_off(s, k);
    if k > 0 {
        let c1 = seq![s[0]];
        let r = s.drop_first();
        let b = encode_utf8(s);
        let e = encode_utf8(c1);
        assert(s =~= c1 + r);
        encode_utf8_concat(c1, r);
        encode_utf8_valid_utf8(s);
        encode_utf8_valid_utf8(c1);
        lemma_enc_pos(c1);
        lemma_first_byte(s);
        assert forall|j: int| 0 <= j < k - 1 implies r[j] != '\n' by { assert(s[j + 1] == r[j]); }
        lemma_no_lf(r, k - 1);
        lemma_off(r, k - 1);
        assert(s.take(k) =~= c1 + r.take(k - 1));
        encode_utf8_concat(c1, r.take(k - 1));
        assert(off(s, k) == e.len() + off(r, k - 1));
        assert forall|i: int| 0 <= i < off(s, k) implies b[i] != 10 by {
            if i >= e.len() { assert(b[i] == encode_utf8(r)[i - e.len()]); }
            else if (s[0] as u32) < 128 { lemma_enc_ascii(s[0]); assert(enc(s[0])[0] == s[0] as u8); }
            else {
                assert(b[i] == e[i]);
                lemma_first_byte(c1);
                encode_utf8_first_scalar(c1);
                if e[i] < 0x80 { lemma_after_ascii(e, i); lemma_scalar_ascii(c1, i); }
            }
        }
    }
}

/// In the encoding of a single non-ASCII character there is no ASCII byte.
pub proof fn lemma_scalar_ascii(c: Seq<char>, i: int)
    requires c.len() == 1, (c[0] as u32) >= 128, 0 <= i < encode_utf8(c).len()
    ensures encode_utf8(c)[i] >= 0x80
{
    let b = encode_utf8(c);
    encode_utf8_valid_utf8(c);
    encode_utf8_first_scalar(c);
    lemma_first_byte(c);
    let n = length_of_first_scalar(b);
    assert(valid_first_scalar(b));
    assert(c.drop_first() =~= Seq::empty());
    assert(encode_utf8(c.drop_first()) =~= Seq::empty()) by { reveal_with_fuel(encode_utf8, 2); }
    assert(b.len() == n);
}

/// The first `\n` character is the first byte 10.
pub proof fn lemma_char_lf(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> s[j] != '\n', k < s.len() ==> s[k] == '\n'
    ensures
        forall|i: int| 0 <= i < off(s, k) ==> encode_utf8(s)[i] != 10,
        off(s, k) < encode_utf8(s).len() ==> encode_utf8(s)[off(s, k)] == 10,
{
    lemma_off(s, k);
    lemma_no_lf(s, k);
    if k < s.len() {
        lemma_first_byte(s.skip(k));
        assert(encode_utf8(s)[off(s, k)] == encode_utf8(s).subrange(off(s, k), encode_utf8(s).len() as int)[0]);
    }
}

/// An ASCII character takes one byte.
pub proof fn lemma_off_next(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures off(s, k) < off(s, k + 1), (s[k] as u32) < 128 ==> off(s, k + 1) == off(s, k) + 1 && encode_utf8(s)[off(s, k)] == s[k] as u8
{
    let a = s.take(k);
    let c1 = seq![s[k]];
    assert(s.take(k + 1) =~= a + c1);
    encode_utf8_concat(a, c1);
    lemma_enc_pos(c1);
    lemma_off(s, k);
    lemma_off(s, k + 1);
    if (s[k] as u32) < 128 {
        lemma_enc_ascii(s[k]);
        assert(enc(s[k])[0] == s[k] as u8);
        let b = encode_utf8(s);
        assert(b[off(s, k)] == b.subrange(0, off(s, k + 1))[off(s, k)]);
    }
}

/// Bytes `[0, n)` of `b` satisfy `f`, and byte `n` (if any) doesn't.
pub open spec fn run(b: Seq<u8>, f: spec_fn(u8) -> bool, n: int) -> bool {
    0 <= n <= b.len() && (forall|i: int| 0 <= i < n ==> f(#[trigger] b[i])) && (n < b.len() ==> !f(b[n]))
}

/// The longest run of characters that satisfy `f`, which holds for ASCII characters only.
pub proof fn lemma_run(s: Seq<char>, f: spec_fn(u8) -> bool, k: int)
    requires
        0 <= k <= s.len(),
        forall|x: u8| #[trigger] f(x) ==> x < 0x80,
        forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 128 && f(s[i] as u8),
        k < s.len() ==> (s[k] as u32) >= 128 || !f(s[k] as u8),
    ensures run(encode_utf8(s), f, off(s, k)), off(s, k) == k
{
    lemma_off(s, k);
    let a = s.take(k);
    assert(ascii_chars(a)) by { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] as u32) < 128 by { assert(a[i] == s[i]); } }
    lemma_ascii_seq(a);
    let b = encode_utf8(s);
    assert forall|i: int| 0 <= i < off(s, k) implies f(#[trigger] b[i]) by {
        assert(b[i] == b.subrange(0, off(s, k))[i]);
        assert(a[i] == s[i]);
    }
    if k < s.len() {
        lemma_first_byte(s.skip(k));
        assert(b[off(s, k)] == b.subrange(off(s, k), b.len() as int)[0]);
    }
}

// --- assumed ---------------------------------------------------------------

pub open spec fn ascii_ws(b: u8) -> bool { b == 32 || (9 <= b <= 13) }

/// Unicode white space.
pub uninterp spec fn is_ws(c: char) -> bool;

pub broadcast axiom fn axiom_ws_ascii(c: char)
    requires (c as u32) < 128
    ensures #[trigger] is_ws(c) == ascii_ws(c as u8);

/// How many characters of `s` remain when white space is trimmed off its end.
pub open spec fn trimmed(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if is_ws(s.last()) { trimmed(s.drop_last()) } else { s.len() }
}

/// Text that is empty or all white space.
pub open spec fn blank(s: Seq<char>) -> bool { trimmed(s) == 0 }
pub open spec fn blank_b(b: Seq<u8>) -> bool { blank(decode_utf8(b)) }


/// The length of a `str` never exceeds `isize::MAX`.
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= isize::MAX;

}
use text::*;
