/// The text of the first line, trimmed at its end.
spec fn line_of(b: Seq<u8>) -> Seq<u8> { b.subrange(0, norm_len(b)) }
