//! Every reported span is exact.
use asciidoc_parser::Parser;

use crate::{common::*, fail_if, genr, rng::Rng, walk};

pub fn has_directive(src: &str) -> bool {
    src.starts_with("include::") || src.starts_with("if") || src.contains("\ninclude::") || src.contains("\nif")
}

fn check(case: &[String]) -> Out {
    let Some(src) = case.first() else { return Out::Skip };
    if has_directive(src) {
        return Out::Skip;
    }
    let d = Parser::default().parse(src);
    let mut n = 0;
    // Prefix tables computed independently of the code under test.
    let mut line_at = vec![(1usize, 1usize); src.len() + 1];
    let (mut l, mut c) = (1, 1);
    for (i, ch) in src.char_indices() {
        for k in i..i + ch.len_utf8() {
            line_at[k] = (l, c);
        }
        if ch == '\n' {
            l += 1;
            c = 1;
        } else {
            c += 1;
        }
    }
    line_at[src.len()] = (l, c);
    for (label, s) in walk::all_spans(&d) {
        n += 1;
        let (o, e) = (s.byte_offset(), s.byte_offset() + s.data().len());
        fail_if!(src.get(o..e) != Some(s.data()), "{label}: data {:?} is not the source at {o}..{e} ({:?})", s.data(), src.get(o..e.min(src.len())));
        fail_if!((s.line(), s.col()) != line_at[o], "{label}: reported {}:{} for offset {o}, which is {}:{}", s.line(), s.col(), line_at[o].0, line_at[o].1);
    }
    Out::Pass(n > 3)
}

fn ex_case(i: u64, _t: bool) -> Vec<String> {
    vec![seq_nth(genr::LINES, 2, i).join("\n")]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    vec![genr::doc(r)]
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "documents (every pair of line tokens, then seeded random documents without preprocessor directives); every span reachable through the API is compared with the source text and with line/column recomputed from its offset; non-trivial = more than three spans",
        exhaustive: |_| seq_count(genr::LINES.len(), 2),
        exhaustive_case: ex_case,
        random: (1_500_000, 100_000_000),
        random_case,
        check,
    }
}
