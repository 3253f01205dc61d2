// --- C04: line ends and trailing spaces ---------------------------------------

proof fn lemma_eol_at(x: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < x.len() ==> x[i] != 10, t.len() > 0, t[0] == 10
    ensures eol(x + t) == x.len()
    decreases x.len()
{
    if x.len() > 0 {
        assert((x + t).skip(1) =~= x.skip(1) + t);
        lemma_eol_at(x.skip(1), t);
        assert((x + t)[0] == x[0]);
    } else { assert((x + t) =~= t); }
}

spec fn spaces(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }

proof fn lemma_spaces_after(x: Seq<u8>, b: Seq<u8>, n: int)
    requires x.len() <= n <= b.len(), b.subrange(0, x.len() as int) =~= x, forall|i: int| x.len() <= i < n ==> b[i] == 32
    ensures spaces_off(b, n) == spaces_off(x, x.len() as int)
    decreases n
{
    if n > x.len() { lemma_spaces_after(x, b, n - 1); }
    else {
        assert(b.subrange(0, n) =~= x);
        lemma_spaces_pre(b, n, n);
    }
}

/// A line `x`, ended by LF, by CRLF, or with any number of trailing spaces before either,
/// gives the same normalized line, and what follows it is the same text `y`.
proof fn lemma_line_ends(x: Seq<u8>, n: nat, cr: bool, y: Seq<u8>)
    requires forall|i: int| 0 <= i < x.len() ==> x[i] != 10, x.len() > 0 ==> x.last() != 13
    ensures
        ({ let e = if cr { seq![13u8, 10u8] } else { seq![10u8] };
           let b = x + spaces(n) + e + y;
           &&& norm_len(b) == spaces_off(x, x.len() as int)
           &&& b.subrange(0, norm_len(b)) =~= x.subrange(0, spaces_off(x, x.len() as int))
           &&& b.skip(next_line(b)) =~= y }),
{
    let e = if cr { seq![13u8, 10u8] } else { seq![10u8] };
    let xs = x + spaces(n);
    let b = xs + e + y;
    let h = if cr { xs + seq![13u8] } else { xs };
    let t = seq![10u8] + y;
    assert(b =~= h + t);
    assert forall|i: int| 0 <= i < h.len() implies h[i] != 10 by {}
    lemma_eol_at(h, t);
    assert(eol(b) == h.len());
    assert(line_len(b) == xs.len()) by {
        if cr { assert(b[xs.len() as int] == 13); }
        else if xs.len() > 0 { assert(b[xs.len() - 1] == xs.last()); if n > 0 { assert(xs.last() == 32); } else { assert(xs =~= x); } }
    }
    assert(b.subrange(0, x.len() as int) =~= x);
    assert forall|i: int| x.len() <= i < xs.len() implies b[i] == 32 by {}
    lemma_spaces_after(x, b, xs.len() as int);
    lemma_spaces_bound(x, x.len() as int);
    assert(b.subrange(0, norm_len(b)) =~= x.subrange(0, spaces_off(x, x.len() as int)));
    assert(b.skip(next_line(b)) =~= y);
}
