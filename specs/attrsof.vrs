// --- attribute lists, as seen by the blocks that have them ----------------------------------
//@type attributes/attrlist.rs | AttrlistContext derive=Clone,Copy,PartialEq,Eq,Structural
/// What an attribute list's text gives (the unit `list` says what), and what is reported of it.
uninterp spec fn inline_attrs_of<'a>(s: Span<'a>, p: Parser) -> Attrlist<'a>;
uninterp spec fn inline_attr_reports<'a>(s: Span<'a>, p: Parser) -> Seq<Warning<'a>>;
uninterp spec fn attrs_of<'a>(s: Span<'a>, p: Parser) -> Attrlist<'a>;
//@assume attributes/attrlist.rs | Attrlist::parse
//@ spec:
    requires wf(source)
    ensures attrlist_context is Block ==> r.item.item == attrs_of(source, *parser), attrlist_context is Inline ==> r.item.item == inline_attrs_of(source, *parser) && r.warnings@ == inline_attr_reports(source, *parser)
//@end

//@fn attributes/attrlist.rs | Attrlist::block_style
//@ spec:
    ensures opt_view(r) == style1(*self)
//@ closure 0 params: a: &ElementAttribute
//@ closure 0:
    -> (o: Option<&str>) ensures opt_view(o) == ea_style(*a)
//@end
spec fn opt_view(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// What a text starts and ends with.
proof fn lemma_first2(s: Span)
    ensures ({
        let b = sb(s); let l = line_of(b); let t = s.data@;
        &&& t.len() > 0 <==> b.len() > 0
        &&& t.len() > 0 ==> (t[0] == '[' <==> b[0] == 91)
        &&& b.len() > 0 && b[0] != 10 && b[0] != 13 && b[0] != 32 ==> l.len() > 0 && l[0] == b[0]
        &&& b.len() > 1 && b[0] != 10 && b[0] != 13 && b[0] != 32 && b[1] != 10 && b[1] != 13 && b[1] != 32 ==> l.len() > 1 && l[0] == b[0] && l[1] == b[1]
        &&& forall|i: int| 0 <= i < l.len() ==> l[i] == b[i]
    })
{
    let b = sb(s);
    lemma_eol(b); lemma_norm(b);
    if s.data@.len() > 0 { lemma_first_byte(s.data@); }
    lemma_spaces_keep(b, line_len(b), 0); lemma_spaces_keep(b, line_len(b), 1);
}
proof fn lemma_spaces_keep(b: Seq<u8>, n: int, i: int)
    ensures 0 <= i < n <= b.len() && b[i] != 32 ==> i < spaces_off(b, n)
    decreases n
{ if 0 <= i < n - 1 && n <= b.len() && b[n - 1] == 32 { lemma_spaces_keep(b, n - 1, i); } }
proof fn lemma_pairs()
    ensures
        forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "[[".spec_bytes(), i) <==> 0 <= i && i + 2 <= b.len() && b[i] == 91 && b[i + 1] == 91,
        forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "]]".spec_bytes(), i) <==> 0 <= i && i + 2 <= b.len() && b[i] == 93 && b[i + 1] == 93,
        forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, "..".spec_bytes(), i) <==> 0 <= i && i + 2 <= b.len() && b[i] == 46 && b[i + 1] == 46,
        "[[".spec_bytes().len() == 2, "]]".spec_bytes().len() == 2,
{
    reveal_strlit("[["); reveal_strlit("]]"); reveal_strlit("..");
    lemma_lit("[["); lemma_lit("]]"); lemma_lit("..");
    assert("[["@ =~= seq!['[', '[']); assert("]]"@ =~= seq![']', ']']); assert(".."@ =~= seq!['.', '.']);
    assert("[[".spec_bytes() =~= seq![91u8, 91u8]); assert("]]".spec_bytes() =~= seq![93u8, 93u8]); assert("..".spec_bytes() =~= seq![46u8, 46u8]);
    lemma_pair("[[".spec_bytes(), 91); lemma_pair("]]".spec_bytes(), 93); lemma_pair("..".spec_bytes(), 46);
}
proof fn lemma_pair(p: Seq<u8>, x: u8)
    requires p == seq![x, x]
    ensures forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, p, i) <==> 0 <= i && i + 2 <= b.len() && b[i] == x && b[i + 1] == x
{
    assert forall|b: Seq<u8>, i: int| #[trigger] at_pat(b, p, i) <==> 0 <= i && i + 2 <= b.len() && b[i] == x && b[i + 1] == x by {
        if 0 <= i && i + 2 <= b.len() { let s = b.subrange(i, i + 2); assert(s[0] == b[i] && s[1] == b[i + 1]); if b[i] == x && b[i + 1] == x { assert(s =~= p); } else { assert(p[0] == x && p[1] == x); } }
    }
}

/// What any text starts with or ends with, by its bytes.
proof fn lemma_ascii_ends()
    ensures forall|c: char, b: Seq<u8>, i: int| (c as u32) < 128 ==> (#[trigger] at_pat(b, enc(c), i) <==> 0 <= i < b.len() && b[i] == c as u8)
{
    assert forall|c: char, b: Seq<u8>, i: int| (c as u32) < 128 implies (#[trigger] at_pat(b, enc(c), i) <==> 0 <= i < b.len() && b[i] == c as u8) by {
        if 0 <= i < b.len() { assert(b.subrange(i, i + 1) =~= seq![b[i]]); assert(enc(c)[0] == c as u8); }
    }
}
proof fn lemma_dec(t: Seq<char>, b: Seq<u8>)
    requires b == encode_utf8(t)
    ensures decode_utf8(b) == t
{ encode_utf8_decode_utf8(t); }
/// Parts of a part.
proof fn lemma_part_of(s: Span, t: Span, a: int, z: int)
    requires part(s, t, a, z)
    ensures forall|u: Span, x: int, y: int| #[trigger] part(t, u, x, y) ==> part(s, u, a + x, a + y)
{ assert forall|u: Span, x: int, y: int| #[trigger] part(t, u, x, y) implies part(s, u, a + x, a + y) by { lemma_part_part(s, t, u, a, z, x, y); } }
