//! Delimited and verbatim blocks, against a line-by-line model.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
};

use super::c02::has_directive;
use crate::{common::*, fail_if, genr, rng::Rng};

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

fn norm(l: &str) -> &str {
    l.trim_end_matches(' ')
}

fn all(l: &str, c: char) -> bool {
    l.len() >= 4 && l.chars().all(|x| x == c)
}

fn raw_kind(l: &str) -> Option<&'static str> {
    [('/', "comment"), ('-', "listing"), ('.', "literal"), ('+', "pass")].into_iter().find(|(c, _)| all(l, *c)).map(|x| x.1)
}

fn compound_kind(l: &str) -> Option<&'static str> {
    if l == "--" {
        return Some("open");
    }
    [('=', "example"), ('*', "sidebar"), ('_', "quote")].into_iter().find(|(c, _)| all(l, *c)).map(|x| x.1)
}

const META: &[&str] = &["[source]", "[source,rust]", "[literal]", "[listing]", "[#i]", "[.r]", ".Title", "[%opt]", "[[anch]]"];

struct M<'a> {
    lines: Vec<&'a str>,
    offs: Vec<usize>,
    evs: Vec<String>,
    open: Vec<usize>,
    known: bool,
    verbatim: usize,
    delimited: usize,
}

impl M<'_> {
    fn region(&mut self, mut i: usize, b: usize, depth: usize) -> Option<()> {
        let pad = " ".repeat(depth);
        while i < b {
            if norm(self.lines[i]).is_empty() {
                i += 1;
                continue;
            }
            let mut style = "";
            let mut meta = false;
            let mut kinds = vec![];
            while i < b && META.contains(&norm(self.lines[i])) {
                match norm(self.lines[i]) {
                    "[source]" | "[source,rust]" => style = "source",
                    "[literal]" => style = "literal",
                    "[listing]" => style = "listing",
                    _ => {}
                }
                let k = if self.lines[i].starts_with("[[") { "a" } else { &self.lines[i][..1] };
                if kinds.contains(&k) {
                    return None;
                }
                kinds.push(k);
                meta = true;
                i += 1;
            }
            if i >= b || norm(self.lines[i]).is_empty() {
                return None;
            }
            let l = norm(self.lines[i]);
            let close = || self.lines[i + 1..b].iter().position(|x| norm(x) == l).map(|k| i + 1 + k);
            if let Some(k) = raw_kind(l) {
                let j = close();
                if j.is_none() {
                    self.open.push(self.offs[i]);
                }
                let e = j.unwrap_or(b);
                let body = self.lines[i + 1..e].join("\n");
                self.evs.push(format!("{pad}{k} {:?}", if k == "listing" || k == "literal" { esc(&body) } else { body }));
                self.verbatim += 1;
                self.delimited += 1;
                i = (e + 1).min(b);
                continue;
            }
            if let Some(k) = compound_kind(l) {
                let j = close();
                if j.is_none() {
                    self.open.push(self.offs[i]);
                }
                let e = j.unwrap_or(b);
                self.evs.push(format!("{pad}{k}"));
                self.delimited += 1;
                self.region(i + 1, e, depth + 1)?;
                i = (e + 1).min(b);
                continue;
            }
            if let Some(t) = l.strip_prefix("== ")
                && depth == 0
                && !meta
            {
                if !t.starts_with(|c: char| c.is_ascii_lowercase()) {
                    return None;
                }
                self.evs.push("section".into());
                i += 1;
                continue;
            }
            let indent = l.len() - l.trim_start_matches([' ', '\t']).len();
            if indent == 0 && !l.starts_with(|c: char| c.is_ascii_alphabetic()) {
                return None;
            }
            if l.starts_with("image") || l.starts_with("video") || l.starts_with("audio") {
                return None;
            }
            let style = if style.is_empty() && indent > 0 { "literal" } else { style };
            if style == "listing" && !self.known {
                return None;
            }
            let plain = style.is_empty();
            let mut text = vec![];
            let first = i;
            while i < b {
                let t = norm(self.lines[i]);
                if t.trim().is_empty() {
                    if !t.is_empty() {
                        return None;
                    }
                    break;
                }
                if i > first && (t == "+" || t.starts_with('[') && t.ends_with(']') || raw_kind(t).is_some() || compound_kind(t).is_some()) {
                    break;
                }
                if plain && !(t.starts_with(|c: char| c.is_ascii_alphabetic()) && t.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ')) {
                    return None;
                }
                if t != t.trim_end() {
                    return None;
                }
                let own = t.len() - t.trim_start_matches([' ', '\t']).len();
                text.push(t[own.min(indent)..].to_string());
                i += 1;
            }
            let mut text = text.join("\n");
            if plain {
                text = text.to_string();
            } else {
                self.verbatim += 1;
                text = esc(&text);
            }
            self.evs.push(format!("{pad}paragraph {text:?}"));
        }
        Some(())
    }
}

fn actual(b: &Block<'_>, depth: usize, v: &mut Vec<String>) {
    let pad = " ".repeat(depth);
    let k = b.raw_context();
    match b {
        Block::Section(s) => {
            v.push("section".into());
            for c in s.nested_blocks() {
                actual(c, depth, v);
            }
        }
        Block::Preamble(s) => {
            for c in s.nested_blocks() {
                actual(c, depth, v);
            }
        }
        Block::CompoundDelimited(s) => {
            v.push(format!("{pad}{}", k.as_ref()));
            for c in s.nested_blocks() {
                actual(c, depth + 1, v);
            }
        }
        Block::RawDelimited(_) | Block::Simple(_) => v.push(format!("{pad}{} {:?}", k.as_ref(), b.rendered_content().unwrap_or("(none)"))),
        _ => v.push(format!("{pad}{}", k.as_ref())),
    }
}

fn check(case: &[String], which: u8) -> Out {
    let (doc, known) = match case {
        [doc] => (doc, false),
        [doc, k] if k == "known" => (doc, true),
        _ => return Out::Skip,
    };
    if doc.contains('\r') || which != 10 && doc.contains('\t') || has_directive(doc) || doc.lines().any(|l| l.starts_with("endif")) {
        return Out::Skip;
    }
    let mut lines: Vec<&str> = doc.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let mut at = 0;
    let offs = lines
        .iter()
        .map(|l| {
            let a = at;
            at += l.len() + 1;
            a
        })
        .collect();
    let n = lines.len();
    let mut m = M { lines, offs, evs: vec![], open: vec![], known, verbatim: 0, delimited: 0 };
    if m.region(0, n, 0).is_none() {
        return Out::Skip;
    }
    let d = Parser::default().parse(doc);
    let mut got = vec![];
    for b in d.nested_blocks() {
        actual(b, 0, &mut got);
    }
    if which == 10 {
        // Only what is rendered.
        let f = |v: &[String]| v.iter().filter(|s| s.ends_with('"')).cloned().collect::<Vec<_>>();
        let (g, w) = (f(&got), f(&m.evs));
        let i = g.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(g.len().min(w.len()));
        fail_if!(g != w, "content {i} is {:?}, expected {:?}", g.get(i), w.get(i));
        return Out::Pass(m.verbatim > 0);
    }
    let i = got.iter().zip(&m.evs).position(|(a, b)| a != b).unwrap_or(got.len().min(m.evs.len()));
    fail_if!(got != m.evs, "block {i} is {:?}, expected {:?}", got.get(i), m.evs.get(i));
    let mut w: Vec<usize> = d.warnings().filter(|w| format!("{:?}", w.warning).contains("UnterminatedDelimitedBlock")).map(|w| w.source.byte_offset()).collect();
    w.sort();
    m.open.sort();
    fail_if!(w != m.open, "unterminated blocks reported at {w:?}, expected {:?}", m.open);
    Out::Pass(m.delimited > 0)
}

const TOK: &[&str] = &["w", "", "----", "-----", "====", "=====", "--", "....", "****", "++++", "////"];

const CONTENT: &[&str] = &[
    "<b>&amp;</b>", "a < b && c > d", "*x* _y_ `z` #w#", "{sp} {empty}", "http://x.y[z]", "(C) ... -- '", "//c", "// c", "+", "<<a,b>>", "== h", ".T", "[source]", "[[x]]", ":a: b", "image::x[]", "&#167; &lt;",
    "pass:[x] +y+ +++z+++", "\\{sp}", "  two", "é🙌", "|===", "<1>", "x +", "trailing  ", "\tt\tu", " \tv", "\t\t w", "= T", "* item", "'''", "---", "```", "\u{96}0\u{97}", "----x", "--- -", " ----", "-----", "....", "----", "====", "--", "]", "[", "[x", "word [y]",
];

fn ex10(i: u64, _t: bool) -> Vec<String> {
    const OPEN: &[&str] = &["----", "....", "++++", "////", "[source,rust]\n----", "[literal]\n....", "====\n----", "[source]", "[literal]", " lit", "\tlit"];
    let k = OPEN.len() as u64;
    let o = OPEN[(i % k) as usize];
    let body = seq_nth(CONTENT, 2, i / k).join("\n");
    vec![match o {
        "====\n----" => format!("{o}\n{body}\n----\n====\n\nw"),
        "[source]" | "[literal]" => format!("{o}\nfirst\n{body}\n\nw"),
        "\tlit" => format!("\t first\n{body}\n\t  last\n\nw"),
        " lit" => format!(" first\n{body}\n  last\n\nw"),
        o => format!("{o}\n{body}\n{}\n\nw", o.lines().last().unwrap_or("")),
    }]
}

fn random_case(r: &mut Rng, which: u8) -> Vec<String> {
    let mut ls: Vec<String> = vec![];
    let mut stack: Vec<String> = vec![];
    for _ in 0..r.range(2, 16) {
        let mut l = match r.below(if which == 10 { 14 } else { 10 }) {
            0 | 1 => String::new(),
            2 => "word text".into(),
            3..=5 => {
                if !stack.is_empty() && r.pct(60) {
                    stack.remove(r.below(stack.len()))
                } else {
                    let d = r.pick(&["-", ".", "+", "/", "=", "*", "_"]).repeat(r.range(4, 6));
                    let d = if r.pct(15) { "--".to_string() } else { d };
                    stack.push(d.clone());
                    d
                }
            }
            6 => r.pick(META).to_string(),
            7 if r.pct(30) => "== sect".into(),
            8 => r.pick(&["---", "-----x", "---- -", "=== =", "----=", "...", "++", "____a", " ----", "*****"]).to_string(),
            9 => format!(" {}lit", " ".repeat(r.below(3))),
            10 if r.pct(30) => format!("{}{}lit", r.pick(&["", " ", "\t"]), r.pick(&[" ", "\t", "\t\t"])),
            10 | 11 => r.pick(CONTENT).to_string(),
            12 | 13 => genr::inline(r, 4).replace('\n', " "),
            _ => "w".into(),
        };
        if r.pct(6) {
            l.push_str("  ");
        }
        ls.push(l);
    }
    while let Some(d) = stack.pop() {
        if r.pct(70) {
            ls.push(d);
        }
    }
    if r.pct(60) {
        ls.push(String::new());
    }
    vec![ls.join("\n")]
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "delimited and paragraph verbatim blocks over every pair of 46 difficult content lines, then random documents; the rendered content is compared with the lines themselves, escaped once; non-trivial = at least one verbatim block",
        exhaustive: |_| seq_count(CONTENT.len(), 2) * 11,
        exhaustive_case: ex10,
        random: (1_500_000, 100_000_000),
        random_case: |r| random_case(r, 10),
        check: |c| check(c, 10),
    }
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "every document of up to 5 of 11 line tokens (6 in thorough), then random documents of delimiters of several lengths; blocks, nesting, contents and unterminated-block warnings compared with a line-by-line model; non-trivial = at least one delimited block",
        exhaustive: |t| seq_count(TOK.len(), if t { 6 } else { 5 }),
        exhaustive_case: |i, t| vec![seq_nth(TOK, if t { 6 } else { 5 }, i).join("\n")],
        random: (1_500_000, 100_000_000),
        random_case: |r| random_case(r, 19),
        check: |c| check(c, 19),
    }
}
