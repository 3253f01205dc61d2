//! Attribute lists: built from known parts, then read back.
use asciidoc_parser::{
    HasSpan, Parser,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    document::Document,
    parser::ModificationContext,
};

use crate::{common::*, rng::Rng, walk};

#[derive(Clone, Default)]
struct Want {
    name: Option<String>,
    value: String,
    shorthand: bool,
}

struct List {
    text: String,
    want: Vec<Want>,
    empty_values: usize,
    unterminated: usize,
}

fn is_name(s: &str) -> bool {
    s.chars().next().is_some_and(|c| c.is_ascii_alphanumeric()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
}

fn bare_ok(v: &str) -> bool {
    !v.is_empty() && v.trim() == v && !v.contains([',', '\n', '{', '}']) && !v.starts_with(['"', '\'', '[']) && !v.ends_with(']')
}

/// Renders the parts (four strings each: kind, name, value, spacing).
fn build(parts: &[String], block: bool) -> Option<List> {
    let mut l = List { text: String::new(), want: vec![], empty_values: 0, unterminated: 0 };
    let n = parts.len() / 4;
    for (i, p) in parts.chunks(4).enumerate() {
        let [kind, name, v, sp] = p else { return None };
        let last = i + 1 == n;
        if i > 0 {
            // A comma, with optional spaces on either side.
            l.text.push_str(match sp.as_str() {
                "a" | "ab" => ", ",
                "b" => " ,",
                "t" => ",\t ",
                _ => ",",
            });
        }
        let eq = match sp.as_str() {
            "ab" => " = ",
            "b" => " =",
            "e" => "= ",
            _ => "=",
        };
        let quote = |q: char| -> Option<(String, String)> {
            if v.contains(['\n', '{', '}', '[', ']']) || v.ends_with('\\') || v.contains(&format!("\\{q}")) {
                return None;
            }
            let e = if q == '\'' && block {
                // Substituted as normal text.
                match v.as_str() {
                    "*b*" => "<strong>b</strong>".to_string(),
                    _ if v.chars().all(|c| c.is_alphanumeric() || " ,<>&\"#=%;:!".contains(c)) && !v.contains("=>") && !v.contains("<=") && !v.contains("##") && v.matches('#').count() < 2 && !v.contains("&") => v.replace('<', "&lt;").replace('>', "&gt;"),
                    _ => return None,
                }
            } else {
                v.clone()
            };
            Some((format!("{q}{}{q}", v.replace(q, &format!("\\{q}"))), e))
        };
        let mut put = |text: String, name: Option<&str>, value: String, shorthand: bool| {
            l.text.push_str(&text);
            // A lone empty one is none at all.
            if name.is_none() && value.is_empty() && last && l.want.is_empty() {
                return;
            }
            if name.is_none() || value != "None" {
                l.want.push(Want { name: name.map(str::to_string), value, shorthand });
            }
        };
        match kind.as_str() {
            "pos" => {
                if !bare_ok(v) || v.contains('=') {
                    return None;
                }
                put(v.clone(), None, v.clone(), true)
            }
            // Ends with an equal sign and has no value: a positional one.
            "noval" if is_name(name) => put(format!("{name}="), None, format!("{name}="), true),
            // Not a name before the equal sign: a positional one.
            "badname" if bare_ok(v) && !is_name(name) && bare_ok(name) && !name.contains('=') => put(format!("{name}={v}"), None, format!("{name}={v}"), true),
            "dq" | "sq" => {
                let (t, e) = quote(if kind == "dq" { '"' } else { '\'' })?;
                put(t, None, e, false)
            }
            "empty" if last && i > 0 && sp != "b" => put(String::new(), None, String::new(), true),
            "gap" if i > 0 && !last => {
                // Nothing between two commas: reported and dropped.
                if sp == "b" || ["b"].contains(&parts[4 * i + 7].as_str()) {
                    return None;
                }
                l.empty_values += 1;
            }
            "named" if is_name(name) && bare_ok(v) => put(format!("{name}{eq}{v}"), Some(name), v.clone(), false),
            "ndq" | "nsq" if is_name(name) => {
                let (t, e) = quote(if kind == "ndq" { '"' } else { '\'' })?;
                put(format!("{name}{eq}{t}"), Some(name), e, false)
            }
            "unterm" if last && bare_ok(v) && !v.contains(['"', '\'', '\\']) => {
                put(format!("\"{v}"), None, format!("\"{v}"), true);
                l.unterminated += 1;
            }
            "nunterm" if last && is_name(name) && bare_ok(v) && !v.contains(['"', '\'', '\\']) => {
                put(format!("{name}={q}{v}", q = '"'), Some(name), format!("\"{v}"), false);
                l.unterminated += 1;
            }
            _ => return None,
        }
    }
    // References in it are replaced beforehand.
    if l.text.starts_with([' ', '\t', '[']) || l.text.ends_with([' ', '\t']) {
        return None;
    }
    Some(l)
}

/// Style, ID, roles, options of a shorthand text, and empty items in it.
fn shorthand(v: &str) -> (Option<String>, Option<String>, Vec<String>, Vec<String>, usize) {
    let (mut style, mut id, mut roles, mut options, mut empty) = (None, None, vec![], vec![], 0);
    let mut items: Vec<String> = vec![String::new()];
    for c in v.chars() {
        if "#.%".contains(c) {
            items.push(c.to_string());
        } else {
            items.last_mut().unwrap().push(c);
        }
    }
    for (i, it) in items.iter().enumerate() {
        if i > 0 && it.len() == 1 {
            empty += 1;
        }
        let t = it.trim_end();
        if i == 0 {
            if !t.is_empty() {
                style = Some(t.to_string());
            }
        } else if t.len() > 1 {
            let (d, r) = t.split_at(1);
            match d {
                "#" => id = id.or(Some(r.to_string())),
                "." => roles.push(r.to_string()),
                _ => options.push(r.to_string()),
            }
        }
    }
    (style, id, roles, options, empty)
}

fn compare(a: &Attrlist<'_>, l: &List) -> Option<String> {
    // Lifetimes: the accessors want a reference as long-lived as the data.
    let a: &Attrlist<'_> = unsafe { std::mem::transmute(a) };
    if a.span().data() != l.text && !l.text.contains('{') {
        return Some(format!("span is {:?}, not {:?}", a.span().data(), l.text));
    }
    let got: Vec<(Option<String>, String)> = a.attributes().map(|x| (x.name().map(str::to_string), x.value().to_string())).collect();
    let want: Vec<(Option<String>, String)> = l.want.iter().map(|w| (w.name.clone(), w.value.clone())).collect();
    if got != want {
        return Some(format!("{:?} gives {got:?}, expected {want:?}", l.text));
    }
    let pos: Vec<&Want> = l.want.iter().filter(|w| w.name.is_none()).collect();
    for n in 0..pos.len() + 2 {
        let w = if n == 0 { None } else { pos.get(n - 1).map(|w| w.value.as_str()) };
        if a.nth_attribute(n).map(|x| x.value()) != w {
            return Some(format!("{:?}: attribute {n} is {:?}, expected {w:?}", l.text, a.nth_attribute(n)));
        }
        for name in ["role", "zz", "opts", "alt"] {
            let w2 = l.want.iter().find(|w| w.name.as_deref() == Some(name)).map(|w| w.value.as_str()).or(w);
            if a.named_or_positional_attribute(name, n).map(|x| x.value()) != w2 {
                return Some(format!("{:?}: {name} or {n} is {:?}, expected {w2:?}", l.text, a.named_or_positional_attribute(name, n)));
            }
        }
    }
    let named = |n: &str| l.want.iter().find(|w| w.name.as_deref() == Some(n)).map(|w| w.value.clone());
    for w in &l.want {
        if let Some(n) = &w.name {
            if a.named_attribute(n).map(|x| x.value().to_string()) != named(n) {
                return Some(format!("{:?}: {n} is {:?}, expected {:?}", l.text, a.named_attribute(n), named(n)));
            }
        }
    }
    let (style, id, mut roles, mut options, _) = match pos.first() {
        Some(w) if w.shorthand => shorthand(&w.value),
        _ => Default::default(),
    };
    let id = id.or(named("id"));
    roles.extend(named("role").unwrap_or_default().split(' ').filter(|s| !s.is_empty()).map(str::to_string));
    for n in ["opts", "options"] {
        options.extend(named(n).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(str::to_string));
    }
    let got = (a.block_style().map(str::to_string), a.id().map(str::to_string), a.roles().iter().map(|s| s.to_string()).collect::<Vec<_>>(), a.options().iter().map(|s| s.to_string()).collect::<Vec<_>>());
    if got != (style.clone(), id.clone(), roles.clone(), options.clone()) {
        return Some(format!("{:?}: style, ID, roles, options are {got:?}, expected {:?}", l.text, (style, id, roles, options)));
    }
    for o in ["a", "b", "header", "", "%a"] {
        if a.has_option(o) != options.iter().any(|x| x == o) {
            return Some(format!("{:?}: has_option({o:?}) is {}", l.text, a.has_option(o)));
        }
    }
    None
}

fn warnings(d: &Document<'_>, l: &List) -> Option<String> {
    let empties = match l.want.iter().find(|w| w.name.is_none()) {
        Some(w) if w.shorthand => shorthand(&w.value).4,
        _ => 0,
    };
    let got: Vec<String> = d.warnings().map(|w| format!("{:?}", w.warning)).collect();
    for (name, n) in [("EmptyShorthandItem", empties), ("EmptyAttributeValue", l.empty_values), ("AttributeValueMissingTerminatingQuote", l.unterminated), ("MissingCommaAfterQuotedAttributeValue", 0)] {
        let g = got.iter().filter(|w| w.contains(name)).count();
        if g != n {
            return Some(format!("{:?}: {g} warnings of {name}, expected {n} ({got:?})", l.text));
        }
    }
    None
}

fn check(case: &[String]) -> Out {
    let [context, parts @ ..] = case else { return Out::Skip };
    if parts.is_empty() || parts.len() % 4 != 0 {
        return Out::Skip;
    }
    let block = context != "image";
    let Some(l) = build(parts, block) else { return Out::Skip };
    let mut p = Parser::default().with_intrinsic_attribute("whole", &l.text, ModificationContext::Anywhere);
    let text = if context == "ref" { "{whole}" } else { l.text.as_str() };
    let doc = match context.as_str() {
        "para" => format!("[{text}]\ntext\n"),
        "ref" => format!("[{text}]\n.title\ntext\n"),
        "open" => format!(".title\n[{text}]\n====\nx\n====\n"),
        "section" => format!("x\n\n[{text}]\n== S\n"),
        "image" => format!("image::x.png[{text}]\n"),
        _ => return Out::Skip,
    };
    if context == "ref" && (l.text.starts_with('[') || l.text.contains("{")) {
        return Out::Skip;
    }
    // Styles that would turn the block into something else.
    if block && l.want.iter().any(|w| w.name.is_none() && ["comment", "discrete", "float"].iter().any(|s| w.value.starts_with(s))) {
        return Out::Skip;
    }
    let d = p.parse(&doc);
    let l = if context == "ref" { List { text: "{whole}".into(), ..l } } else { l };
    let bs = walk::all_blocks(&d);
    let a = match context.as_str() {
        "image" => bs.iter().find_map(|b| if let Block::Media(m) = b { Some(m.macro_attrlist()) } else { None }),
        _ => bs.iter().find_map(|b| b.attrlist()),
    };
    let Some(a) = a else { return Out::Fail(format!("{doc:?}: no attribute list found")) };
    if let Some(m) = compare(a, &l) {
        return Out::Fail(m);
    }
    if let Some(m) = warnings(&d, &l) {
        return Out::Fail(m);
    }
    Out::Pass(l.want.len() > 1 || l.want.iter().any(|w| w.value.len() > 3))
}

const KINDS: &[&str] = &["pos", "dq", "sq", "named", "ndq", "nsq", "empty", "gap", "noval", "badname", "unterm", "nunterm"];
const SP: &[&str] = &["", "a", "b", "ab", "e", "t"];
const NAMES: &[&str] = &["role", "id", "opts", "options", "alt", "x-1", "0", "Role", "subs", "a_b", ".r", "é"];
const VALUES: &[&str] = &[
    "quote", "None", "#i", ".r1.r2", "%a", "quote#i.r%a%b", "a b", "é🙌", "x.y#z", "#i.r#j", "..r", "#", "q%", "q .r", "# .r", "q# ", "a  b c", "a,b,header", ",a,,b", "r s", " r ", "", "=", "a\"b", "a'b", "\\x", "<", "*b*", "q.r s.t", "#i#j", "%a,b", "none", "[x", "x]", "a=b", ".",
];

fn ex_count(_: bool) -> u64 {
    (VALUES.len() * KINDS.len() * SP.len() * 4 * 5 * 3) as u64
}

fn ex_case(mut i: u64, _: bool) -> Vec<String> {
    let mut take = |v: &[&str]| {
        let r = v[(i % v.len() as u64) as usize].to_string();
        i /= v.len() as u64;
        r
    };
    let (v, k, s, n, c, first) = (take(VALUES), take(KINDS), take(SP), take(&["role", "id", "opts", "a_b"]), take(&["para", "ref", "open", "section", "image"]), take(&["", "x", "n"]));
    let mut case = vec![c];
    match first.as_str() {
        "x" => case.extend(["pos", "", "style", ""].map(str::to_string)),
        "n" => case.extend(["named", "role", "v", ""].map(str::to_string)),
        _ => {}
    }
    case.extend([k.clone(), n, v, s]);
    if k == "gap" {
        case.extend(["pos", "", "later", "a"].map(str::to_string));
    }
    case
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let c = r.pick(&["para", "ref", "open", "section", "image"]).to_string();
    for _ in 0..200 {
        let mut v = vec![c.clone()];
        let n = if r.pct(10) { r.range(7, 12) } else { r.range(1, 5) };
        for _ in 0..n {
            let mut val = r.pick(VALUES).to_string();
            if r.pct(25) {
                val.push_str(r.pick(VALUES));
            }
            v.extend([r.pick(KINDS).to_string(), r.pick(NAMES).to_string(), val, r.pick(SP).to_string()]);
            if build(&v[1..], c != "image").is_none() && !v[v.len() - 4].starts_with("gap") {
                v.truncate(v.len() - 4);
            }
        }
        if v.len() > 1 && build(&v[1..], c != "image").is_some() {
            return v;
        }
    }
    vec![c, "pos".into(), String::new(), "quote".into(), String::new()]
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "attribute lists built from twelve kinds of part with known values (each kind, spacing and value alone and after another; then random lists), above four kinds of block and in a block macro, read back through every accessor and compared, with their warnings; non-trivial = more than one part or a value longer than three bytes",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (800_000, 50_000_000),
        random_case,
        check,
    }
}
