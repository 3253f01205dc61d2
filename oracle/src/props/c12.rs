//! Inline passthroughs.
use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
    parser::ModificationContext,
};

use crate::{common::*, fail_if, rng::Rng, walk};

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// (source, expected) of one passthrough; None if the text doesn't suit it.
fn pass(kind: &str, x: &str) -> Option<(String, String)> {
    if x.is_empty() || x.contains(['+', '$', '\n', '\r', '\u{96}', '\u{97}']) || x.contains("pass:") || x.contains("stem:") {
        return None;
    }
    let mac = |subs: &str| (!x.contains(']') && !x.ends_with('\\')).then(|| format!("pass:{subs}[{x}]"));
    let q = |s: &str| s.split(' ').map(|w| if w == "*b*" { "<strong>b</strong>" } else { w }).collect::<Vec<_>>().join(" ");
    let plain = |s: &str| s.split(' ').all(|w| w == "*b*" || w == "{v}" || w == "<" || w.chars().all(|c| c.is_ascii_alphabetic()));
    let constrained = !x.starts_with(char::is_whitespace) && !x.ends_with(char::is_whitespace);
    Some(match kind {
        "+++" => (format!("+++{x}+++"), x.to_string()),
        "++" => (format!("++{x}++"), esc(x)),
        "$$" => (format!("$${x}$$"), esc(x)),
        "+" if constrained => (format!("+{x}+"), esc(x)),
        "code" if constrained && !x.contains('`') => (format!("`+{x}+`"), format!("<code>{}</code>", esc(x))),
        "role" if constrained => (format!("[.r]+{x}+"), format!("<span class=\"r\">{}</span>", esc(x))),
        "role2" => (format!("[.r]++{x}++"), format!("<span class=\"r\">{}</span>", esc(x))),
        "pass" => (mac("")?, x.to_string()),
        "passc" => (mac("c")?, esc(x)),
        "passv" => (mac("v")?, esc(x)),
        "passnone" => (mac("none")?, x.to_string()),
        "passq" if plain(x) => (mac("q")?, q(x)),
        "passcq" if plain(x) => (mac("c,q")?, q(&esc(x))),
        "passqc" if plain(x) => (mac("q,c")?, esc(&q(x))),
        "passa" if plain(x) => (mac("a")?, x.replace("{v}", "val")),
        "xm" if plain(x) => (format!("[.r x-]+{x}+"), format!("<code class=\"r\">{}</code>", q(&esc(x)).replace("{v}", "val"))),
        "xm0" if plain(x) => (format!("[x-]+{x}+"), format!("<code>{}</code>", q(&esc(x)).replace("{v}", "val"))),
        "xm2" if plain(x) => (format!("[.r x-]++{x}++"), format!("<code class=\"r\">{}</code>", q(&esc(x)).replace("{v}", "val"))),
        "xc" if constrained && !x.contains('`') => (format!("[.r x-]`{x}`"), format!("<code class=\"r\">{}</code>", esc(x))),
        "xc0" if constrained && !x.contains('`') => (format!("[x-]`{x}`"), format!("<code>{}</code>", esc(x))),
        "word" => {
            if !x.chars().all(|c| c.is_ascii_alphabetic()) {
                return None;
            }
            (x.to_string(), x.to_string())
        }
        _ => return None,
    })
}

fn wrap(w: &str, p: &(String, String), kind: &str) -> Option<(String, String)> {
    let (s, e) = p;
    Some(match w {
        "" => (s.clone(), e.clone()),
        "*" => (format!("*{s}*"), format!("<strong>{e}</strong>")),
        "**" => (format!("a**{s}**b"), format!("a<strong>{e}</strong>b")),
        // An underscore counts as a word character next to a constrained mark.
        "_" if kind != "+" && kind != "role" && kind != "code" && !kind.starts_with('x') => (format!("_{s}_"), format!("<em>{e}</em>")),
        "(" => (format!("({s})"), format!("({e})")),
        "link" if !s.contains('=') && s.matches(']').count() == kind.starts_with("pass") as usize && kind != "word" && !kind.starts_with("role") && !kind.starts_with('x') => (format!("link:u[{s}]"), format!("<a href=\"u\">{e}</a>")),
        "^" if !s.contains(' ') && !kind.starts_with('x') => (format!("^{s}^"), format!("<sup>{e}</sup>")),
        // Constrained formatting may not follow a semicolon.
        ">" if kind != "code" && !kind.starts_with('x') => (format!("<{s}>"), format!("&lt;{e}&gt;")),
        _ => return None,
    })
}

fn check(case: &[String]) -> Out {
    let [context, segs @ ..] = case else { return Out::Skip };
    if segs.is_empty() || segs.len() % 3 != 0 {
        return Out::Skip;
    }
    let header = context == "entry" || context == "doctitle";
    let (mut src, mut exp, mut n) = (vec!["w".to_string()], vec!["w".to_string()], 0);
    for s in segs.chunks(3) {
        let [k, w, x] = s else { return Out::Skip };
        if header && (!w.is_empty() || k == "code" || k.starts_with('x') || x.ends_with('\\')) {
            return Out::Skip;
        }
        let Some(p) = pass(k, x) else { return Out::Skip };
        let Some((a, b)) = wrap(w, &p, k) else { return Out::Skip };
        n += (k != "word") as usize;
        src.push(a);
        exp.push(b);
    }
    src.push("z".into());
    exp.push("z".into());
    let sep = if context == "lines" { "\n" } else { " " };
    let (s, e) = (src.join(sep), exp.join(sep));
    let doc = match context.as_str() {
        "para" | "lines" => s.clone(),
        "title" => format!(".{s}\ntext"),
        "section" => format!("== {s}"),
        "doctitle" => format!("= {s}"),
        "entry" => format!(":k: {s}"),
        "nested" => format!("====\n{s}\n====\n"),
        _ => return Out::Skip,
    };
    let mut p = Parser::default().with_intrinsic_attribute("v", "val", ModificationContext::Anywhere).with_intrinsic_attribute("a", "*no*", ModificationContext::Anywhere);
    let d = p.parse(&doc);
    let bs = walk::all_blocks(&d);
    let got: Option<String> = match context.as_str() {
        "title" => bs.first().and_then(|b| b.title()).map(|s| s.to_string()),
        "section" => bs.first().and_then(|b| if let Block::Section(s) = b { Some(s.section_title().to_string()) } else { None }),
        "doctitle" => d.header().title().map(|s| s.to_string()),
        "entry" => match p.attribute_value("k") {
            InterpretedValue::Value(s) => Some(s),
            _ => None,
        },
        _ => bs.iter().find_map(|b| b.rendered_content()).map(|s| s.to_string()),
    };
    fail_if!(got.as_deref() != Some(e.as_str()), "{s:?} in {context} gives {got:?}, expected {e:?}");
    Out::Pass(n > 0)
}

const KINDS: &[&str] = &["+++", "++", "$$", "+", "code", "role", "role2", "pass", "passc", "passv", "passnone", "passq", "passcq", "passqc", "passa", "xm", "xm0", "xm2", "xc", "xc0"];
const WRAPS: &[&str] = &["", "*", "**", "_", "(", "link", "^", ">"];
const CTX: &[&str] = &["para", "lines", "title", "section", "doctitle", "entry", "nested"];
const X: &[&str] = &[
    "*b*", "_i_", "`c`", "{v}", "{nope}", "{a}", "<", "<b>x</b>", ">", "&", "&amp;", "&#167;", "http://a.b[c]", "http://a.b", "(C)", "...", "x--y", " -- ", "it's", "->", "link:u[t]", "<<x>>", "[[id]]", "image:x[]", "\\", "\\{v}",
    "\"`q`\"", "#h#", "^s^", "~t~", "((i))", "a@b.co", "{sp}", "é🙌", "1", "word", "|", "=", "a=b", ";", ":", "\\]", "[x]", "**u**", "__", "0", "x]", ",", "a,b", "mailto:a@b[c]", "'`'", "\\\\",
];

fn ex_count(_: bool) -> u64 {
    (KINDS.len() * WRAPS.len() * CTX.len() * X.len()) as u64
}

fn ex_case(mut i: u64, _: bool) -> Vec<String> {
    let mut take = |v: &[&str]| {
        let r = v[(i % v.len() as u64) as usize].to_string();
        i /= v.len() as u64;
        r
    };
    let (k, w, c, x) = (take(KINDS), take(WRAPS), take(CTX), take(X));
    vec![c, k, w, x]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let c = r.pick(CTX).to_string();
    let header = c == "entry" || c == "doctitle";
    let n = if r.pct(10) { r.range(8, 14) } else { r.range(1, 4) };
    let mut v = vec![c];
    for _ in 0..n {
        loop {
            let k = if r.pct(12) { "word".to_string() } else { r.pick(KINDS).to_string() };
            let w = if header || r.pct(50) { String::new() } else { r.pick(WRAPS).to_string() };
            let mut x = String::new();
            if k == "word" {
                x.push_str(r.pick(&["alpha", "b"]));
            } else if ["passq", "passcq", "passqc", "passa", "xm", "xm0", "xm2"].contains(&k.as_str()) {
                let m = r.range(1, 3);
                x = (0..m).map(|_| r.pick(&["*b*", "{v}", "<", "t"])).collect::<Vec<_>>().join(" ");
            } else {
                for _ in 0..r.range(1, 3) {
                    x.push_str(r.pick(X));
                    if r.pct(30) {
                        x.push(' ');
                    }
                }
            }
            if header && (k == "code" || k.starts_with('x') || x.ends_with('\\')) {
                continue;
            }
            if pass(&k, &x).is_some_and(|p| wrap(&w, &p, &k).is_some()) {
                v.extend([k, w, x]);
                break;
            }
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "twenty kinds of passthrough around 52 difficult texts, in seven places and eight surroundings, then random sequences of them; the rendering compared with each kind's rule; non-trivial = at least one passthrough",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (800_000, 50_000_000),
        random_case,
        check,
    }
}
