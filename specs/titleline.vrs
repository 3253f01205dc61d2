// --- C06: section headings ----------------------------------------------------
//@type warnings.rs | WarningType
//@type warnings.rs | Warning

/// How many times `c` stands at the start of `b`.
spec fn lead(b: Seq<u8>, c: u8) -> nat decreases b.len() { if b.len() > 0 && b[0] == c { 1 + lead(b.skip(1), c) } else { 0 } }

/// The marks of a heading: equal signs, or else hashes.
spec fn marks(b: Seq<u8>) -> nat { if b.len() > 0 && b[0] == 61 { lead(b, 61) } else { lead(b, 35) } }

//@include lineof.vrs

/// The line is a section heading: 2 to 6 marks, then a space or tab. (At the end of a normalized line, only a tab can follow.)
spec fn is_heading(b: Seq<u8>) -> bool {
    let l = line_of(b);
    let n = marks(l) as int;
    2 <= n <= 6 && n < l.len() && (l[n] == 32 || l[n] == 9)
}

proof fn lemma_lead(b: Seq<u8>, c: u8)
    ensures lead(b, c) <= b.len(), forall|i: int| 0 <= i < lead(b, c) ==> b[i] == c, lead(b, c) < b.len() ==> b[lead(b, c) as int] != c
    decreases b.len()
{
    if b.len() > 0 && b[0] == c {
        lemma_lead(b.skip(1), c);
        assert forall|i: int| 0 <= i < lead(b, c) implies b[i] == c by { if i > 0 { assert(b.skip(1)[i - 1] == b[i]); } }
    }
}

/// One warning `w` was added, at the line that `s` starts with.
spec fn reported(a: Seq<Warning>, z: Seq<Warning>, s: Span, w: WarningType) -> bool {
    z.len() == a.len() + 1 && z.drop_last() =~= a && z.last().warning == w && part(s, z.last().source, 0, norm_len(sb(s)))
}

//@fn blocks/section.rs | parse_title_line
//@ spec:
    requires wf(source)
    ensures
        (r is Some) == is_heading(sb(source)),
        r is Some ==> ({
            let l = line_of(sb(source));
            let m = marks(l);
            &&& (r->0).item.0 == m - 1
            &&& wf((r->0).item.1) && wf((r->0).after)
            &&& within(source, (r->0).item.1) && sb((r->0).item.1) =~= l.skip(m as int + ((r->0).item.1.offset - source.offset - m))
            &&& (r->0).item.1.offset > source.offset + m
            &&& part(source, (r->0).after, next_line(sb(source)), sb(source).len() as int) && next_line(sb(source)) > 0
            &&& final(warnings)@ == old(warnings)@
        }),
        // A line of one mark, or of more than six, is reported at that line; nothing else is.
        r is None ==> ({
            let l = line_of(sb(source));
            if marks(l) == 1 { reported(old(warnings)@, final(warnings)@, source, WarningType::Level0SectionHeadingNotSupported) }
            else if marks(l) > 6 { reported(old(warnings)@, final(warnings)@, source, WarningType::SectionHeadingLevelExceedsMaximum((marks(l) - 1) as usize)) }
            else { final(warnings)@ == old(warnings)@ }
        }),
//@ start:
    proof { lemma_parts(); lemma_norm(sb(source)); }
//@ loop 0:
    invariant
        wf(line), part(source, line, count as int, norm_len(sb(source))), count as int + lead(sb(line), 61) == lead(line_of(sb(source)), 61), 0 <= count <= norm_len(sb(source)),
        norm_len(sb(source)) <= sb(source).len() <= isize::MAX,
    decreases sb(line).len()
//@ loop 1:
    invariant
        wf(line), part(source, line, count as int, norm_len(sb(source))), count as int + lead(sb(line), 35) == lead(line_of(sb(source)), 35), 0 <= count <= norm_len(sb(source)),
        norm_len(sb(source)) <= sb(source).len() <= isize::MAX,
    decreases sb(line).len()
//@end

