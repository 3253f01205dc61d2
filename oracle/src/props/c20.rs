//! Author and revision lines.
use asciidoc_parser::{
    Parser,
    blocks::IsBlock,
    document::{Author, InterpretedValue},
    parser::ModificationContext,
};

use crate::{common::*, fail_if, rng::Rng, walk};

const REFS: &[(&str, &str)] = &[("{fn}", "Jane"), ("{ln}", "van_Doe"), ("{em}", "j@d.e"), ("{full}", "Jane_Q Doe"), ("{n}", "7.1"), ("{vn}", "v8")];

fn expand(s: &str) -> String {
    REFS.iter().fold(s.to_string(), |s, (r, v)| s.replace(r, v))
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

#[derive(Debug, PartialEq, Clone)]
struct A {
    name: String,
    first: String,
    middle: Option<String>,
    last: Option<String>,
    email: Option<String>,
}

fn name_ok(s: &str) -> bool {
    let c0 = |c: char| c.is_alphanumeric() || c == '_';
    s.chars().next().is_some_and(c0) && s.chars().all(|c| c0(c) || "-'.".contains(c))
}

/// One author, written as names and an address; None if outside the class.
fn author(names: &str, email: &str, gap: &str) -> Option<(String, A)> {
    let sep = if gap == "wide" { "  " } else { " " };
    let ns: Vec<&str> = names.split(' ').filter(|s| !s.is_empty()).collect();
    if ns.is_empty() || email.contains(['<', '>', ' ', '\n']) || email.contains(';') {
        return None;
    }
    let mut text = ns.join(sep);
    let sp = |s: &str| s.replace('_', " ");
    let all_refs = ns.iter().any(|n| n.contains('{'));
    if ns.iter().any(|n| n.contains('{') && !REFS.iter().any(|(r, _)| r == n) || n.contains('}') && !n.starts_with('{')) {
        return None;
    }
    // With several references, the address's angle brackets are escaped first
    // (as in Asciidoctor, pinned by tests).
    if all_refs && (email.contains('{') || (!email.is_empty() && names.matches('{').count() > 1)) {
        return None;
    }
    if ns == ["{full}"] || (ns.len() == 1 && all_refs) {
        // A single reference is a single name.
        if !email.is_empty() {
            return None;
        }
        let e = sp(&expand(ns[0]));
        return Some((text, A { name: e.clone(), first: e, middle: None, last: None, email: None }));
    }
    let x = expand(&text);
    let parts: Vec<String> = x.split(' ').filter(|s| !s.is_empty()).map(sp).collect();
    if !email.is_empty() {
        text.push_str(&format!("{sep}<{email}>"));
    }
    if parts.len() > 3 || x.split(' ').any(|n| !n.is_empty() && !name_ok(n)) {
        // Not of the form: a single name, as written.
        if all_refs || text.contains(['{', '&']) {
            return None;
        }
        let t = sp(&if text.contains('<') { esc(&text) } else { text.clone() });
        return Some((text, A { name: t.clone(), first: t, middle: None, last: None, email: None }));
    }
    let (m, l) = match parts.len() {
        1 => (None, None),
        2 => (None, Some(parts[1].clone())),
        _ => (Some(parts[1].clone()), Some(parts[2].clone())),
    };
    Some((text, A { name: sp(&x), first: parts[0].clone(), middle: m, last: l, email: (!email.is_empty()).then(|| expand(email)) }))
}

fn init(a: &A) -> String {
    [Some(&a.first), a.middle.as_ref(), a.last.as_ref()].into_iter().flatten().filter_map(|s| s.chars().next()).collect()
}

fn value(p: &Parser, n: &str) -> Option<String> {
    match p.attribute_value(n) {
        InterpretedValue::Value(s) => Some(s),
        InterpretedValue::Set => Some("(set)".into()),
        InterpretedValue::Unset => None,
    }
}

fn as_a(a: &Author) -> A {
    A { name: a.name().into(), first: a.firstname().into(), middle: a.middlename().map(str::to_string), last: a.lastname().map(str::to_string), email: a.email().map(str::to_string) }
}

fn parser() -> Parser {
    REFS.iter().fold(Parser::default(), |p, (r, v)| p.with_intrinsic_attribute(&r[1..r.len() - 1], *v, ModificationContext::Anywhere))
}

fn rendered(d: &asciidoc_parser::Document<'_>) -> String {
    walk::all_blocks(d).iter().find_map(|b| b.rendered_content()).unwrap_or_default().to_string()
}

fn check(case: &[String]) -> Out {
    let [kind, parts @ ..] = case else { return Out::Skip };
    match kind.as_str() {
        "authors" | "entry" | "before" => {
            if parts.is_empty() || parts.len() % 3 != 0 || (kind == "entry" && parts.len() > 3) {
                return Out::Skip;
            }
            let mut v = vec![];
            for c in parts.chunks(3) {
                let Some(a) = author(&c[0], &c[1], &c[2]) else { return Out::Skip };
                v.push(a);
            }
            let line = v.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join("; ");
            let n = v.len();
            let names = ["author", "authorinitials", "firstname", "middlename", "lastname", "email"];
            let nth = |s: &str, i: usize| if i == 0 { s.to_string() } else { format!("{s}_{}", i + 1) };
            let body: String = (0..=n).flat_map(|i| names.iter().map(move |s| format!("[{{{}}}]", nth(s, i)))).collect::<Vec<_>>().join(" ");
            let doc = match kind.as_str() {
                "entry" => format!("= T\n:author: {line}\n\n{body}\n"),
                "before" => format!("// c\n:x: y\n= T\n:z: y\n// c\n{line}\n\n{body}\n"),
                _ => format!("= T\n{line}\n\n{body}\n"),
            };
            if line.starts_with(':') || line.starts_with("//") {
                return Out::Skip;
            }
            if kind == "entry" && (line.contains(['<', '{', '&']) || line.ends_with('+') || line.ends_with('\\')) {
                return Out::Skip;
            }
            let mut p = parser();
            let d = p.parse(&doc);
            let got: Vec<A> = d.header().author_line().map(|l| l.authors().map(as_a).collect()).unwrap_or_default();
            let want: Vec<A> = v.iter().map(|a| a.1.clone()).collect();
            if kind != "entry" {
                fail_if!(got != want, "{line:?} gives {got:?}, expected {want:?}");
                let gi: Vec<String> = d.header().author_line().map(|l| l.authors().map(|a| a.initials()).collect()).unwrap_or_default();
                let wi: Vec<String> = want.iter().map(init).collect();
                fail_if!(gi != wi, "{line:?}: initials are {gi:?}, expected {wi:?}");
            }
            let mut refs = vec![];
            for i in 0..=n {
                let a = want.get(i);
                // The entry keeps its own value.
                let name = a.map(|a| if kind == "entry" { line.clone() } else { a.name.clone() });
                for (s, w) in names.iter().zip([name, a.map(init), a.map(|a| a.first.clone()), a.and_then(|a| a.middle.clone()), a.and_then(|a| a.last.clone()), a.and_then(|a| a.email.clone())]) {
                    let k = nth(s, i);
                    fail_if!(value(&p, &k) != w, "{line:?}: {k} is {:?}, expected {w:?}", value(&p, &k));
                    refs.push((k, w));
                }
            }
            if !want.iter().any(|a| [&a.name, &a.first].iter().any(|s| s.contains(['\'', '.'])) || a.last.iter().chain(&a.middle).any(|s| s.contains(['\'', '.'])) || a.email.is_some()) {
                let w = refs.iter().map(|(k, w)| format!("[{}]", w.clone().unwrap_or(format!("{{{k}}}")))).collect::<Vec<_>>().join(" ");
                let r = rendered(&d);
                fail_if!(r != w, "{line:?}: the body reads {r:?}, expected {w:?}");
            }
            Out::Pass(n > 1 || want[0].last.is_some())
        }
        "rev" => {
            let [form, pre, num, date, remark, gap] = parts else { return Out::Skip };
            let bad = |s: &String| s.contains(['\n', ',', ':']) || s.trim() != s;
            if bad(pre) || bad(num) || date.trim() != date || date.contains([':', '\n']) || remark.trim() != remark || remark.contains('\n') || pre.contains(|c: char| c.is_ascii_digit() || c == '{') {
                return Out::Skip;
            }
            let clean = if num.starts_with(|c: char| c.is_ascii_digit() || c == '{') { num.as_str() } else { return Out::Skip };
            let g = if gap == "wide" { "  " } else if gap == "none" { "" } else { " " };
            let sub = |s: &str| {
                // Special characters first, then references.
                expand(&esc(s))
            };
            let (line, wn, wd, wr) = match form.as_str() {
                "number" if pre == "v" && !num.starts_with('{') => (format!("v{num}"), Some(sub(clean)), String::new(), None),
                "number remark" if pre == "v" && !num.starts_with('{') => (format!("v{num}:{g}{remark}"), Some(sub(clean)), String::new(), Some(sub(remark))),
                "number date" => (format!("{pre}{num},{g}{date}"), Some(sub(clean)), sub(date), None),
                "number date remark" => (format!("{pre}{num},{g}{date}:{g}{remark}"), Some(sub(clean)), sub(date), Some(sub(remark))),
                "date" if !date.contains(',') && !date.is_empty() && !date.starts_with('v') => (date.clone(), None, sub(date), None),
                "date remark" if !date.contains(',') && !date.is_empty() && !date.starts_with('v') => (format!("{date}{}:{g}{remark}", if gap == "wide" { " " } else { "" }), None, sub(date), Some(sub(remark))),
                _ => return Out::Skip,
            };
            if line.starts_with(':') || line.starts_with("//") || line.trim_end() != line || line.starts_with(' ') {
                return Out::Skip;
            }
            let doc = format!("= T\nA B\n{line}\n\n[{{revnumber}}] [{{revdate}}] [{{revremark}}]\n");
            let mut p = parser();
            let d = p.parse(&doc);
            let Some(r) = d.header().revision_line() else { return Out::Fail(format!("{doc:?}: no revision line")) };
            let got = (r.revnumber().map(str::to_string), r.revdate().to_string(), r.revremark().map(str::to_string));
            fail_if!(got != (wn.clone(), wd.clone(), wr.clone()), "{line:?} gives {got:?}, expected {:?}", (wn, wd, wr));
            for (k, w) in [("revnumber", &wn), ("revdate", &Some(wd)), ("revremark", &wr)] {
                fail_if!(value(&p, k) != *w, "{line:?}: {k} is {:?}, expected {w:?}", value(&p, k));
            }
            Out::Pass(true)
        }
        _ => Out::Skip,
    }
}

const NAMES: &[&str] = &["Jane", "van_der_Doe", "O'Neil", "J.", "Élise", "山田", "a-b", "_x", "R2", "{fn}", "{ln}", "-x", "(x)", "x_", "__", "{full}"];
const MAILS: &[&str] = &["", "a@b.c", "http://x.y/z", "{em}", "a_b@c.d", "x"];
const GAPS: &[&str] = &["", "wide"];
const FORMS: &[&str] = &["number", "number remark", "number date", "number date remark", "date", "date remark"];
const PRES: &[&str] = &["v", "", "Version ", "V", "rev.", "é", "-"];
const NUMS: &[&str] = &["1", "1.0.2", "1v2", "0", "{n}", "{vn}", "2.x{n}", "1 2", "1<2", "3&"];
const DATES: &[&str] = &["2024-01-02", "Jan 2, 2024", "", "{n}", "a<b", "le 2 février", "x, y, z", "2024"];
const REMARKS: &[&str] = &["A remark", "", "with: colon", "with, comma", "{fn} & <co>", "é", "a_b", "http://x"];

fn ex_count(_: bool) -> u64 {
    let n = NAMES.len() as u64;
    let a = seq_count(NAMES.len(), 3) * 6 * 2 * 3;
    let _ = n;
    a + (6 * 7 * 10 * 8 * 8 * 3) as u64
}

fn ex_case(mut i: u64, _: bool) -> Vec<String> {
    let a = seq_count(NAMES.len(), 3) * 36;
    let s = |x: &str| x.to_string();
    if i < a {
        let (m, g, k) = (i % 6, i / 6 % 2, i / 12 % 3);
        return vec![s(["authors", "entry", "before"][k as usize]), seq_nth(NAMES, 3, i / 36).join(" "), s(MAILS[m as usize]), s(GAPS[g as usize])];
    }
    i -= a;
    let mut take = |v: &[&str]| {
        let r = v[(i % v.len() as u64) as usize].to_string();
        i /= v.len() as u64;
        r
    };
    vec![s("rev"), take(FORMS), take(PRES), take(NUMS), take(DATES), take(REMARKS), take(&["", "wide", "none"])]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    if r.pct(20) {
        return vec!["rev".into(), r.pick(FORMS).into(), r.pick(PRES).into(), r.pick(NUMS).into(), r.pick(DATES).into(), format!("{} {}", r.pick(REMARKS), r.pick(REMARKS)).trim().to_string(), r.pick(&["", "wide", "none"]).into()];
    }
    let mut v = vec![r.pick(&["authors", "before"]).to_string()];
    let n = if r.pct(10) { r.range(9, 12) } else { r.range(1, 4) };
    while v.len() < 3 * n + 1 {
        let k = r.range(1, 4);
        let names = (0..k).map(|_| r.pick(NAMES)).collect::<Vec<_>>().join(" ");
        let (m, g) = (r.pick(MAILS), r.pick(GAPS));
        if author(&names, m, g).is_some() {
            v.extend([names, m.to_string(), g.to_string()]);
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "author lines of every sequence of up to three of sixteen names, with six addresses, and random lines of up to twelve authors; revision lines in every combination of six forms and 43 parts; accessors, derived attributes and references to them compared; non-trivial = a last name, several authors, or a revision line",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (300_000, 20_000_000),
        random_case,
        check,
    }
}
