//! The `subs` attribute.
use asciidoc_parser::{
    Parser,
    blocks::IsBlock,
    content::{SubstitutionGroup, SubstitutionStep},
    parser::ModificationContext,
};

use crate::{common::*, fail_if, rng::Rng, walk};

type S = char; // c q a r m p

fn model(default: Option<&[S]>, value: &str) -> Option<(Vec<S>, Option<&'static str>)> {
    let norm = || "cqarmp".chars().collect::<Vec<_>>();
    let v = value.trim();
    match v {
        "none" => return Some((vec![], Some("None"))),
        "n" | "normal" => return Some((norm(), Some("Normal"))),
        "v" | "verbatim" => return Some((vec!['c'], Some("Verbatim"))),
        _ => {}
    }
    let mut steps: Vec<S> = vec![];
    for (i, t) in v.split(',').enumerate() {
        let t = t.trim();
        if t == "n" || t == "normal" {
            steps = norm();
            continue;
        }
        if t == "v" || t == "verbatim" {
            steps = vec!['c'];
            continue;
        }
        let (how, name) = if let Some(x) = t.strip_prefix('+') {
            ('>', x)
        } else if let Some(x) = t.strip_suffix('+') {
            ('<', x)
        } else if let Some(x) = t.strip_prefix('-') {
            ('-', x)
        } else {
            ('=', t)
        };
        if i == 0 && how != '=' {
            steps = default.unwrap_or(&[]).to_vec();
        }
        let s = match name {
            "c" | "specialcharacters" | "specialchars" => 'c',
            "q" | "quotes" => 'q',
            "a" | "attributes" => 'a',
            "r" | "replacements" => 'r',
            "m" | "macros" => 'm',
            "p" | "post_replacements" => 'p',
            _ => return None,
        };
        match how {
            '<' => steps.insert(0, s),
            '-' => steps.retain(|x| *x != s),
            _ => steps.push(s),
        }
    }
    Some((steps, None))
}

fn entities(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find("&amp;") {
        o.push_str(&r[..i]);
        let t = &r[i + 5..];
        let e = t.find(';').map(|e| &t[..e]);
        match e {
            Some(n) if ["lt", "gt", "amp", "#169", "quot"].contains(&n) => {
                o.push_str(&format!("&{n};"));
                r = &t[n.len() + 1..];
            }
            _ => {
                o.push_str("&amp;");
                r = t;
            }
        }
    }
    o.push_str(r);
    o
}

fn apply(steps: &[S], text: &str) -> String {
    let mut t = text.to_string();
    for s in steps {
        t = match s {
            'c' => t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"),
            'q' => t.replace("*b*", "<strong>b</strong>"),
            'a' => {
                // One pass, left to right: inserted text is not scanned again.
                let mut o = String::new();
                let mut r = t.as_str();
                while let Some(i) = r.find('{') {
                    o.push_str(&r[..i]);
                    let (v, n) = if r[i..].starts_with("{v}") {
                        ("{w}", 3)
                    } else if r[i..].starts_with("{w}") {
                        ("*b*", 3)
                    } else {
                        ("{", 1)
                    };
                    o.push_str(v);
                    r = &r[i + n..];
                }
                o.push_str(r);
                o
            }
            'r' => entities(&t.replace("(C)", "&#169;")),
            'm' => t.replace("link:u[t]", "<a href=\"u\">t</a>"),
            _ => t.lines().enumerate().map(|(i, l)| format!("{}{}", if i > 0 { "\n" } else { "" }, l.strip_suffix(" +").map_or(l.to_string(), |l| format!("{l}<br>")))).collect(),
        };
    }
    t
}

const KINDS: &[(&str, &str, &str)] = &[
    // name, steps by default, group by default
    ("paragraph", "cqarmp", "Normal"),
    ("listing", "c", "Verbatim"),
    ("literal", "c", "Verbatim"),
    ("pass", "", "Pass"),
    ("source", "c", "Verbatim"),
    ("passpara", "", "None"),
];

const TEXT: &str = "x < *b* {v} (C) link:u[t] z +\ny";

fn check(case: &[String]) -> Out {
    let [kind, value] = case else { return Out::Skip };
    let Some((_, dsteps, dgroup)) = KINDS.iter().find(|k| k.0 == kind) else { return Out::Skip };
    let dsteps: Vec<S> = dsteps.chars().collect();
    if value.is_empty() || value.contains(['"', '\n', '\\', '{', '[', ']', '\r', '\'']) || value.starts_with(' ') {
        return Out::Skip;
    }
    let list = match kind.as_str() {
        "source" => format!("[source,rust,subs=\"{value}\"]"),
        "passpara" => format!("[pass,subs=\"{value}\"]"),
        _ => format!("[subs=\"{value}\"]"),
    };
    let d = match kind.as_str() {
        "listing" => "----\n",
        "literal" => "....\n",
        "pass" => "++++\n",
        _ => "",
    };
    let doc = format!("{list}\n{d}{TEXT}\n{d}\nnext < *b*");
    let mut p = Parser::default().with_intrinsic_attribute("v", "{w}", ModificationContext::Anywhere).with_intrinsic_attribute("w", "*b*", ModificationContext::Anywhere);
    let dd = p.parse(&doc);
    let bs = walk::all_blocks(&dd);
    let b = bs[0];
    let (steps, group) = match model(Some(&dsteps), value) {
        None => (dsteps, Some(*dgroup)),
        Some(x) => x,
    };
    let got = b.substitution_group();
    let gs = match &got {
        SubstitutionGroup::Custom(v) => (
            v.iter()
                .map(|s| match s {
                    SubstitutionStep::SpecialCharacters => 'c',
                    SubstitutionStep::Quotes => 'q',
                    SubstitutionStep::AttributeReferences => 'a',
                    SubstitutionStep::CharacterReplacements => 'r',
                    SubstitutionStep::Macros => 'm',
                    SubstitutionStep::PostReplacement => 'p',
                    _ => '?',
                })
                .collect::<Vec<_>>(),
            None,
        ),
        g => (steps.clone(), Some(format!("{g:?}").replace("SubstitutionGroup::", ""))),
    };
    fail_if!(gs != (steps.clone(), group.map(|s| s.to_string())), "subs={value:?} on {kind}: reported {got:?}, expected {steps:?} {group:?}");
    let want = apply(&steps, TEXT);
    let r = b.rendered_content().unwrap_or("(none)");
    fail_if!(r != want, "subs={value:?} on {kind}: steps {steps:?} give {want:?}, but rendered as {r:?}");
    fail_if!(bs.len() < 2 || bs[1].rendered_content() != Some("next &lt; <strong>b</strong>"), "subs={value:?} changed the next block: {:?}", bs.get(1).and_then(|b| b.rendered_content()));
    Out::Pass(true)
}

const TOK: &[&str] = &["c", "q", "a", "r", "m", "p", "+c", "+q", "+a", "+m", "q+", "a+", "c+", "p+", "-c", "-q", "-m", "-r", "n", "v", "normal", "x", "", "none", "verbatim", "+n", "-n", "+", "-", "+q+"];
const LONG: &[&str] = &["specialchars", "specialcharacters", "quotes", "attributes", "replacements", "macros", "post_replacements", "callouts", "Quotes", "normal", "verbatim", "none", "title", "header"];

fn ex_count(t: bool) -> u64 {
    seq_count(TOK.len(), if t { 4 } else { 3 }) * if t { KINDS.len() as u64 } else { 1 }
}

fn ex_case(i: u64, t: bool) -> Vec<String> {
    let k = KINDS.len() as u64;
    let (kind, j) = if t { (i % k, i / k) } else { (i % k, i) };
    vec![KINDS[kind as usize].0.into(), seq_nth(TOK, if t { 4 } else { 3 }, j).join(",")]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let n = r.range(1, 6);
    let v: Vec<String> = (0..n)
        .map(|_| {
            let t = if r.pct(50) { r.pick(TOK) } else { r.pick(LONG) };
            let t = match r.below(8) {
                0 => format!("+{t}"),
                1 => format!("{t}+"),
                2 => format!("-{t}"),
                _ => t.to_string(),
            };
            match r.below(6) {
                0 => format!(" {t}"),
                1 => format!("{t} "),
                _ => t,
            }
        })
        .collect();
    vec![r.pick(&["paragraph", "listing", "literal", "pass", "source", "passpara"]).into(), v.join(",")]
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "subs values of up to 3 of 30 tokens (4 in thorough) then random longer ones, on six kinds of block; the reported group and the rendering of a text that shows each step and its order compared with a model; non-trivial = every case",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (600_000, 50_000_000),
        random_case,
        check,
    }
}
