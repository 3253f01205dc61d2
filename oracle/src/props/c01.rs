//! Parsing is total.
use asciidoc_parser::{
    Parser, Span,
    attributes::Attrlist,
    parser::{IncludeFileHandler, ModificationContext},
};

use crate::{common::*, genr, rng::Rng, walk};

#[derive(Debug)]
struct Files(Vec<String>);

impl IncludeFileHandler for Files {
    fn resolve_target<'src>(&self, _source: Option<&str>, target: &str, _attrlist: &Attrlist<'src>, _parser: &Parser) -> Option<String> {
        match target {
            "a.adoc" => self.0.get(1).cloned(),
            "b.adoc" => self.0.get(2).cloned(),
            _ => None,
        }
    }
}

const CHARS: &[&str] = &["a", " ", "\n", "[", "]", "=", ".", ":", "*", "`", "+", "-", "<", "\\", "{", "}", "'", "\"", "/", "é", "\u{a0}", "\r", "#", ",", "_"];

fn lines_alpha() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = genr::LINES.to_vec();
    v.dedup();
    v
}

fn ex_case(i: u64, thorough: bool) -> Vec<String> {
    let l = lines_alpha();
    let lmax = 2;
    let n1 = seq_count(l.len(), lmax);
    if i < n1 {
        return vec![seq_nth(&l, lmax, i).join("\n")];
    }
    let i = i - n1;
    let n2 = seq_count(genr::INLINE.len(), 2);
    if i < n2 {
        return vec![seq_nth(genr::INLINE, 2, i).concat()];
    }
    let i = i - n2;
    vec![seq_nth(CHARS, if thorough { 5 } else { 4 }, i).concat()]
}

fn ex(thorough: bool) -> u64 {
    seq_count(lines_alpha().len(), 2) + seq_count(genr::INLINE.len(), 2) + seq_count(CHARS.len(), if thorough { 5 } else { 4 })
}

fn random_case(r: &mut Rng) -> Vec<String> {
    match r.below(10) {
        0..=4 => vec![genr::doc(r)],
        5..=7 => vec![genr::inline(r, 12)],
        8 => {
            let n = r.range(3, 5);
            vec![(0..n).map(|_| r.pick(genr::LINES)).collect::<Vec<_>>().join("\n")]
        }
        _ => vec![format!("include::a.adoc[]\n{}\n{}", genr::doc(r), "include::b.adoc[]"), genr::doc(r), genr::doc(r)],
    }
}

/// Deep nesting is outside the bound of this check (see DESIGN.md).
fn check(case: &[String]) -> Out {
    let Some(src) = case.first() else { return Out::Skip };
    let mut p = Parser::default().with_intrinsic_attribute("foo", "fv", ModificationContext::Anywhere);
    if case.len() > 1 {
        // Cyclic includes are exponential by nature: outside the statement.
        for f in &case[1..] {
            if f.contains("include::") {
                return Out::Skip;
            }
        }
        p = p.with_include_file_handler(Files(case.to_vec()));
    }
    let d = p.parse(src);
    walk::touch(&d);
    let _ = Span::new(src);
    // The same parser must stay usable.
    let d2 = p.parse(src);
    walk::touch(&d2);
    Out::Pass(!src.is_empty())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "documents: every pair of line tokens, every pair of inline tokens, every string of up to 4 (thorough 5) characters over a 25-letter alphabet, then seeded random documents, inline texts and include trees; parsed twice on one parser, all accessors read, in a child process watched for crashes and hangs; non-trivial = non-empty",
        exhaustive: ex,
        exhaustive_case: ex_case,
        random: (3_000_000, 200_000_000),
        random_case,
        check,
    }
}
