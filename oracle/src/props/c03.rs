//! Blocks tile the document: in order, nested properly, nothing lost.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use super::c02::has_directive;
use crate::{common::*, genr, rng::Rng};

fn blank(s: &str) -> bool {
    s.trim().is_empty()
}

/// `lo..hi` is the parent's byte range. Children must lie inside, in order,
/// without overlap, separated by blank text only.
fn tile<'a>(src: &str, what: &str, lo: usize, hi: usize, kids: &[&'a Block<'a>], first_gap_free: bool, last_gap: &dyn Fn(&str) -> bool) -> Result<(), String> {
    let mut at = lo;
    for (i, k) in kids.iter().enumerate() {
        let s = k.span();
        let (a, b) = (s.byte_offset(), s.byte_offset() + s.data().trim_end().len());
        if a < at {
            return Err(format!("{what}: child {i} starts at {a}, before {at} (overlap or disorder)"));
        }
        if b > hi {
            return Err(format!("{what}: child {i} ends at {b}, outside its parent ({hi})"));
        }
        if blank(s.data()) {
            return Err(format!("{what}: child {i} is empty"));
        }
        if !(i == 0 && first_gap_free) && !blank(&src[at..a]) {
            return Err(format!("{what}: text {:?} before child {i} belongs to no block", &src[at..a]));
        }
        at = b;
        inner(src, k)?;
    }
    if kids.is_empty() && first_gap_free {
        return Ok(());
    }
    if !last_gap(&src[at..hi]) {
        return Err(format!("{what}: text {:?} after the last child belongs to no block", &src[at..hi]));
    }
    Ok(())
}

fn inner(src: &str, b: &Block) -> Result<(), String> {
    let s = b.span();
    let (a, e) = (s.byte_offset(), s.byte_offset() + s.data().trim_end().len());
    let kids: Vec<&Block> = b.nested_blocks().collect();
    let ctx = b.raw_context();
    match b {
        Block::Section(sec) => {
            // Everything up to the end of the title line is the section's own.
            let t = sec.section_title_source();
            let te = t.byte_offset() + t.data().len();
            let own_end = te + src[te..].find('\n').unwrap_or(src.len() - te);
            let e = e.max(own_end);
            if !blank(&src[te..own_end]) {
                return Err(format!("section: {:?} after its title", &src[te..own_end]));
            }
            tile(src, "section", own_end, e, &kids, false, &blank)
        }
        Block::Preamble(_) => tile(src, "preamble", a, e, &kids, false, &|g| g.is_empty()),
        Block::CompoundDelimited(_) => {
            let ok_last = |g: &str| {
                let g = g.trim();
                g.is_empty() || g == "--" || (g.len() >= 4 && ["=", "*", "_"].iter().any(|d| g.replace(d, "").is_empty()))
            };
            tile(src, &ctx, a, e, &kids, true, &ok_last)
        }
        _ => {
            if !kids.is_empty() {
                return Err(format!("{ctx}: unexpected children"));
            }
            Ok(())
        }
    }
}

fn check(case: &[String]) -> Out {
    let Some(src) = case.first() else { return Out::Skip };
    if has_directive(src) {
        return Out::Skip;
    }
    let d = Parser::default().parse(src);
    let ds = d.span();
    if ds.byte_offset() != 0 || ds.data() != src.trim_end() {
        return Out::Fail(format!("document span is {:?}", ds.data()));
    }
    let h = d.header().span();
    let (ha, hb) = (h.byte_offset(), h.byte_offset() + h.data().len());
    if !blank(&src[..ha]) {
        return Out::Fail(format!("text {:?} before the header is lost", &src[..ha]));
    }
    let kids: Vec<&Block> = d.nested_blocks().collect();
    match tile(src, "document", hb, src.trim_end().len().max(hb), &kids, false, &blank) {
        Ok(()) => Out::Pass(kids.len() > 1 || kids.iter().any(|k| k.nested_blocks().count() > 0)),
        Err(m) => Out::Fail(m),
    }
}

fn ex_case(i: u64, _t: bool) -> Vec<String> {
    vec![seq_nth(genr::LINES, 2, i).join("\n")]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    vec![genr::doc(r)]
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "documents (every pair of line tokens, then seeded random documents without preprocessor directives); block spans must tile header, parents and document with only blank text in between; non-trivial = more than one block",
        exhaustive: |_| seq_count(genr::LINES.len(), 2),
        exhaustive_case: ex_case,
        random: (1_500_000, 100_000_000),
        random_case,
        check,
    }
}
