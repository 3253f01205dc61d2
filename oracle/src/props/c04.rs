//! Line ends and trailing spaces don't matter.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
};

use super::c02::has_directive;
use crate::{common::*, genr, rng::Rng, walk};

/// The document without positions; every text trimmed line by line.
pub fn shape(src: &str) -> Vec<String> {
    let d = Parser::default().parse(src);
    let norm = |s: &str| s.split('\n').map(|l| l.trim_end_matches(['\r', ' '])).collect::<Vec<_>>().join("\n").trim_end().to_string();
    let mut v = vec![];
    let h = d.header();
    v.push(format!("header title {:?}", h.title().map(norm)));
    for a in h.attributes() {
        v.push(format!("header attr {} {:?}", a.name().data(), a.value()));
    }
    if let Some(a) = h.author_line() {
        for a in a.authors() {
            v.push(format!("author {a:?}"));
        }
    }
    if let Some(r) = h.revision_line() {
        v.push(format!("rev {:?} {:?} {:?}", r.revnumber(), r.revdate(), r.revremark()));
    }
    for b in walk::all_blocks(&d) {
        let mut s = format!("{} kids={}", b.raw_context().as_ref(), b.nested_blocks().count());
        s.push_str(&format!(" title={:?} id={:?} roles={:?} opts={:?}", b.title().map(norm), b.id(), b.roles(), b.options()));
        s.push_str(&format!(" style={:?} subs={:?} text={:?}", b.declared_style(), b.substitution_group(), b.rendered_content().map(norm)));
        match b {
            Block::Section(x) => s.push_str(&format!(" level={} head={:?} num={:?}", x.level(), norm(x.section_title()), x.section_number())),
            Block::DocumentAttribute(a) => s.push_str(&format!(" {} {:?}", a.name().data(), a.value())),
            Block::Simple(x) => s.push_str(&format!(" {:?}", x.style())),
            Block::Media(m) => s.push_str(&format!(" {:?} {:?}", m.type_(), m.target().map(|t| t.data()))),
            _ => {}
        }
        v.push(s);
    }
    for w in d.warnings() {
        v.push(format!("warning {:?}", w.warning));
    }
    v
}

fn check(case: &[String]) -> Out {
    let [src, how] = case else { return Out::Skip };
    if has_directive(src) || src.contains('\r') {
        return Out::Skip;
    }
    let base = shape(src);
    let alt = match how.as_str() {
        "crlf" => src.replace('\n', "\r\n"),
        "final" => format!("{}\n", src.trim_end_matches('\n')),
        "nofinal" => src.strip_suffix('\n').unwrap_or(src).to_string(),
        "blank" => format!("{src}\n\n\n"),
        "spaces" => src.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{l}  ") }).collect::<Vec<_>>().join("\n"),
        _ => return Out::Skip,
    };
    let other = shape(&alt);
    if base != other {
        let i = base.iter().zip(&other).position(|(a, b)| a != b).unwrap_or(base.len().min(other.len()));
        return Out::Fail(format!("{how}: {:?} became {:?}", base.get(i), other.get(i)));
    }
    Out::Pass(base.len() > 2)
}

fn random_case(r: &mut Rng) -> Vec<String> {
    vec![genr::doc(r).replace("\r", ""), r.pick(&["crlf", "final", "nofinal", "blank", "spaces"]).to_string()]
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "documents reparsed with CRLF line ends, with / without a final line end, with blank lines appended: same blocks, same text, same warnings; non-trivial = more than two items compared",
        exhaustive: |_| seq_count(genr::LINES.len(), 2),
        exhaustive_case: |i, _| vec![seq_nth(genr::LINES, 2, i).join("\n"), ["crlf", "final", "nofinal", "blank", "spaces"][(i % 5) as usize].to_string()],
        random: (1_000_000, 100_000_000),
        random_case,
        check,
    }
}
