//! C05 (numbering) and C06 (levels): reference model on documents made of
//! headings, single-line paragraphs, attribute entries and heading styles.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock, SectionType},
};

use crate::{common::*, fail_if, rng::Rng};

#[derive(Debug, Clone, PartialEq)]
enum El {
    Head { marks: usize, title: String, style: Option<String> },
    Para(String),
    Attr(String, bool),
}

/// Expected node.
#[derive(Debug, Clone, PartialEq)]
struct Node {
    kind: String,
    level: usize,
    number: Option<Vec<usize>>,
    stype: String,
    kids: Vec<Node>,
}

fn word(s: &str) -> bool {
    !s.is_empty() && s.split(' ').all(|w| !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric()))
}

/// `None`: outside the class.
fn elements(src: &str) -> Option<(Option<usize>, bool, Vec<El>)> {
    let mut numlevels = None;
    let mut sectnums = false;
    let mut els = vec![];
    let mut groups: Vec<Vec<&str>> = vec![vec![]];
    for l in src.split('\n') {
        if l.is_empty() {
            groups.push(vec![]);
        } else {
            groups.last_mut()?.push(l);
        }
    }
    let mut first = true;
    for g in groups.into_iter().filter(|g| !g.is_empty()) {
        if first {
            first = false;
            if g[0].starts_with(':') || g[0].starts_with("= ") {
                // The header.
                for (i, l) in g.iter().enumerate() {
                    if let Some(n) = l.strip_prefix(":sectnumlevels: ") {
                        numlevels = Some(n.parse().ok()?);
                    } else if *l == ":sectnums:" {
                        sectnums = true;
                    } else if *l == ":!sectnums:" {
                        sectnums = false;
                    } else if i == 0 && l.strip_prefix("= ").is_some_and(word) {
                    } else {
                        return None;
                    }
                }
                if !g[0].starts_with("= ") {
                    // Without a title, attribute entries after blank lines still belong to the header.
                    first = true;
                }
                continue;
            }
        }
        let mut style = None;
        let mut rest = &g[..];
        if let Some(s) = g[0].strip_prefix('[').and_then(|s| s.strip_suffix(']')) {
            if !["discrete", "float", "appendix", "preface"].contains(&s) || g.len() != 2 {
                return None;
            }
            style = Some(s.to_string());
            rest = &g[1..];
        }
        let [l] = rest else { return None };
        if *l == ":sectnums:" || *l == ":!sectnums:" {
            if style.is_some() {
                return None;
            }
            els.push(El::Attr("sectnums".into(), *l == ":sectnums:"));
            continue;
        }
        let m = l.chars().next()?;
        if m == '=' || m == '#' {
            let t = l.trim_start_matches(m);
            let marks = l.len() - t.len();
            let t = t.strip_prefix(' ')?;
            if !word(t) {
                return None;
            }
            if marks == 1 && m == '=' && els.is_empty() {
                return None;
            }
            if (marks == 1 || marks > 6) && style.is_some() {
                return None;
            }
            els.push(El::Head { marks, title: t.to_string(), style });
        } else if word(l) && style.is_none() {
            els.push(El::Para(l.to_string()));
        } else {
            return None;
        }
    }
    Some((numlevels, sectnums, els))
}

struct Model {
    els: Vec<El>,
    at: usize,
    numlevels: usize,
    sectnums: bool,
    normal: Vec<usize>,
    appendix: Vec<usize>,
    topmost_appendix: bool,
    last_heading: Option<usize>,
    skips: Vec<(usize, usize)>,
    invalid: usize,
}

impl Model {
    fn nodes(&mut self, inside: Option<usize>) -> Vec<Node> {
        let mut v = vec![];
        while self.at < self.els.len() {
            let el = self.els[self.at].clone();
            match el {
                El::Para(p) => {
                    self.at += 1;
                    v.push(Node { kind: p, level: 0, number: None, stype: String::new(), kids: vec![] });
                }
                El::Attr(a, on) => {
                    self.at += 1;
                    self.sectnums = on;
                    v.push(Node { kind: format!(":{a}"), level: 0, number: None, stype: String::new(), kids: vec![] });
                }
                El::Head { marks, title, .. } if marks == 1 || marks > 6 => {
                    self.at += 1;
                    self.invalid += 1;
                    let _ = title;
                    v.push(Node { kind: "invalid".into(), level: 0, number: None, stype: String::new(), kids: vec![] });
                }
                El::Head { marks, title, style } => {
                    let level = marks - 1;
                    let discrete = matches!(style.as_deref(), Some("discrete") | Some("float"));
                    if discrete {
                        self.at += 1;
                        v.push(Node { kind: title, level, number: None, stype: "Discrete".into(), kids: vec![] });
                        continue;
                    }
                    if let Some(l) = inside
                        && level <= l
                    {
                        return v;
                    }
                    if inside.is_some()
                        && let Some(prev) = self.last_heading
                        && level > prev + 1
                    {
                        self.skips.push((prev, level));
                    }
                    self.at += 1;
                    self.last_heading = Some(level);
                    if level == 1 {
                        self.topmost_appendix = style.as_deref() == Some("appendix");
                    }
                    let number = if self.sectnums && level <= self.numlevels {
                        let c = if self.topmost_appendix { &mut self.appendix } else { &mut self.normal };
                        if c.len() >= level {
                            c.truncate(level);
                            c[level - 1] += 1;
                        } else {
                            while c.len() < level {
                                c.push(1);
                            }
                        }
                        Some(c.clone())
                    } else {
                        None
                    };
                    let stype = if self.topmost_appendix { "Appendix" } else { "Normal" }.to_string();
                    let kids = self.nodes(Some(level));
                    if level == 1 {
                        self.topmost_appendix = false;
                    }
                    v.push(Node { kind: title, level, number, stype, kids });
                }
            }
        }
        v
    }
}

fn actual(b: &Block) -> Node {
    let kids = b.nested_blocks().map(actual).collect();
    match b {
        Block::Section(s) => Node {
            kind: s.section_title().to_string(),
            level: s.level(),
            number: s.section_number().map(|n| n.components().to_vec()),
            stype: match s.section_type() {
                SectionType::Normal => "Normal",
                SectionType::Appendix => "Appendix",
                SectionType::Discrete => "Discrete",
            }
            .into(),
            kids,
        },
        Block::DocumentAttribute(a) => Node { kind: format!(":{}", a.name().data()), level: 0, number: None, stype: String::new(), kids },
        _ => {
            let t = b.rendered_content().unwrap_or("");
            let kind = if b.span().data().starts_with(['=', '#']) { "invalid" } else { t };
            Node { kind: kind.into(), level: 0, number: None, stype: String::new(), kids }
        }
    }
}

fn flat(n: &[Node], depth: usize, v: &mut Vec<(usize, Node)>) {
    for x in n {
        v.push((depth, Node { kids: vec![], ..x.clone() }));
        flat(&x.kids, depth + 1, v);
    }
}

fn displays(b: &Block, v: &mut Vec<(String, Vec<usize>, bool)>) {
    if let Block::Section(s) = b
        && let Some(n) = s.section_number()
    {
        v.push((n.to_string(), n.components().to_vec(), s.section_type() == SectionType::Appendix));
    }
    for k in b.nested_blocks() {
        displays(k, v);
    }
}

fn run(case: &[String], numbers: bool) -> Out {
    let Some(src) = case.first() else { return Out::Skip };
    let Some((nl, sn, els)) = elements(src) else { return Out::Skip };
    let heads = els.iter().filter(|e| matches!(e, El::Head { .. })).count();
    if heads > 24 {
        return Out::Skip;
    }
    let mut m = Model {
        els,
        at: 0,
        numlevels: nl.unwrap_or(3),
        sectnums: sn,
        normal: vec![],
        appendix: vec![],
        topmost_appendix: false,
        last_heading: None,
        skips: vec![],
        invalid: 0,
    };
    let exp = m.nodes(None);
    let mut p = Parser::default();
    if case.len() > 1 {
        // Something else was parsed before on the same parser.
        let _ = p.parse(&case[1]);
        // Attribute state persists across documents by design; neutralise it.
        p = p
            .with_intrinsic_attribute_bool("sectnums", false, asciidoc_parser::parser::ModificationContext::Anywhere)
            .with_intrinsic_attribute("sectnumlevels", "3", asciidoc_parser::parser::ModificationContext::Anywhere);
    }
    let d = p.parse(src);
    let mut got: Vec<Node> = vec![];
    for b in d.nested_blocks() {
        if let Block::Preamble(_) = b {
            got.extend(b.nested_blocks().map(actual));
        } else {
            got.push(actual(b));
        }
    }
    let (mut e, mut g) = (vec![], vec![]);
    flat(&exp, 0, &mut e);
    flat(&got, 0, &mut g);
    if numbers {
        let strip = |v: &[(usize, Node)]| v.iter().filter(|(_, n)| !n.stype.is_empty()).map(|(_, n)| (n.kind.clone(), n.stype.clone(), n.number.clone())).collect::<Vec<_>>();
        let (es, gs) = (strip(&e), strip(&g));
        if es != gs {
            let i = es.iter().zip(&gs).position(|(a, b)| a != b).unwrap_or(es.len().min(gs.len()));
            return Out::Fail(format!("heading {i}: expected {:?}, got {:?}", es.get(i), gs.get(i)));
        }
        let mut disp = vec![];
        for b in d.nested_blocks() {
            displays(b, &mut disp);
        }
        for (i, (s, c, app)) in disp.iter().enumerate() {
            let want = c
                .iter()
                .enumerate()
                .map(|(k, n)| if k == 0 && *app { ((b'A' + (*n as u8) - 1) as char).to_string() } else { n.to_string() })
                .collect::<Vec<_>>()
                .join(".");
            fail_if!(*s != want, "number {c:?} is displayed as {s:?}, expected {want:?}");
            for (s2, ..) in &disp[..i] {
                fail_if!(s == s2, "two sections have the number {s:?}");
            }
        }
        return Out::Pass(disp.len() > 1);
    }
    let strip = |v: &[(usize, Node)]| v.iter().map(|(d, n)| (*d, n.kind.clone(), n.level, n.stype.clone())).collect::<Vec<_>>();
    let (es, gs) = (strip(&e), strip(&g));
    if es != gs {
        let i = es.iter().zip(&gs).position(|(a, b)| a != b).unwrap_or(es.len().min(gs.len()));
        return Out::Fail(format!("item {i}: expected (depth, text, level, type) {:?}, got {:?}", es.get(i), gs.get(i)));
    }
    let mut skips: Vec<(usize, usize)> = vec![];
    let (mut l0, mut max) = (0, 0);
    let mut lines: Vec<usize> = vec![];
    for w in d.warnings() {
        let t = format!("{:?}", w.warning);
        if let Some(r) = t.strip_prefix("WarningType::SectionHeadingLevelSkipped(") {
            let v: Vec<usize> = r.trim_end_matches(')').split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if v.len() == 2 {
                skips.push((v[0], v[1]));
            }
        } else if t.starts_with("WarningType::Level0") {
            l0 += 1;
            lines.push(w.source.line());
        } else if t.starts_with("WarningType::SectionHeadingLevelExceeds") {
            max += 1;
            lines.push(w.source.line());
        }
    }
    skips.sort();
    let mut want = m.skips.clone();
    want.sort();
    fail_if!(skips != want, "skipped-level warnings {skips:?}, expected {want:?}");
    lines.sort();
    lines.dedup();
    fail_if!(lines.len() != m.invalid, "{} lines are headings of an unsupported level, {} warned about ({l0} level 0, {max} too deep)", m.invalid, lines.len());
    Out::Pass(heads > 1)
}

fn gen_doc(r: &mut Rng) -> String {
    let mut g: Vec<String> = vec![];
    if r.pct(85) {
        let mut h: Vec<String> = vec![];
        if r.pct(60) {
            h.push("= Doc".into());
        }
        if r.pct(90) {
            h.push(":sectnums:".into());
        }
        if r.pct(40) {
            h.push(format!(":sectnumlevels: {}", r.range(0, 6)));
        }
        if !h.is_empty() {
            g.push(h.join("\n"));
        }
    }
    let n = r.range(1, 14);
    let mut lvl = 1usize;
    for i in 0..n {
        match r.below(12) {
            0 => g.push(format!("para {i}")),
            1 if r.pct(50) => g.push(":sectnums:".into()),
            1 => g.push(":!sectnums:".into()),
            _ => {
                lvl = match r.below(8) {
                    0..=2 => (lvl + 1).min(5),
                    3 | 4 => lvl,
                    5 => lvl.saturating_sub(1).max(1),
                    6 => 1,
                    _ => r.range(0, 7),
                };
                let m = if r.pct(88) { "=" } else { "#" };
                let style = match r.below(14) {
                    0 => "[discrete]\n",
                    1 | 2 if lvl == 1 => "[appendix]\n",
                    3 if r.pct(30) => "[appendix]\n",
                    4 if r.pct(20) => "[preface]\n",
                    5 if r.pct(20) => "[float]\n",
                    _ => "",
                };
                let style = if lvl == 0 || lvl > 5 { "" } else { style };
                g.push(format!("{style}{} t{i}", m.repeat(lvl + 1)));
                lvl = lvl.clamp(1, 5);
            }
        }
    }
    g.join("\n\n")
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let mut v = vec![gen_doc(r)];
    if r.pct(20) {
        v.push(gen_doc(r));
    }
    v
}

const TOK: &[&str] = &["== a", "=== b", "==== c", "===== d", "====== e", "[appendix]\n== f", "[discrete]\n=== g", "p", "= x", "======= y", "## m"];

fn ex_case(i: u64, t: bool) -> Vec<String> {
    vec![format!(":sectnums:\n\n{}", seq_nth(TOK, if t { 6 } else { 5 }, i).join("\n\n"))]
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "documents of headings, paragraphs, sectnums toggles and heading styles: every sequence of up to 5 (thorough 6) of 11 tokens, then seeded random ones, some after another document on the same parser; numbers compared with a reference counter; non-trivial = two or more numbered sections",
        exhaustive: |t| seq_count(TOK.len(), if t { 6 } else { 5 }),
        exhaustive_case: ex_case,
        random: (400_000, 50_000_000),
        random_case,
        check: |c| run(c, true),
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "the documents of C05; nesting, levels and level warnings compared with a reference model; non-trivial = two or more headings",
        exhaustive: |t| seq_count(TOK.len(), if t { 6 } else { 5 }),
        exhaustive_case: ex_case,
        random: (400_000, 50_000_000),
        random_case,
        check: |c| run(c, false),
    }
}
