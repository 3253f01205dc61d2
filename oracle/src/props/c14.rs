//! Web paths.
use asciidoc_parser::{
    Parser,
    blocks::IsBlock,
    parser::{ModificationContext, PathResolver},
};

use crate::{common::*, fail_if, rng::Rng, walk};

/// `scheme:` and up to two slashes, with a scheme of two characters or more.
fn uri_prefix(s: &str) -> usize {
    let n = s.char_indices().find(|(i, c)| !(c.is_alphabetic() || (*i > 0 && (c.is_numeric() || ".+-".contains(*c))))).map(|(i, _)| i).unwrap_or(s.len());
    if s[..n].chars().count() < 2 || !s[n..].starts_with(':') {
        return 0;
    }
    n + 1 + s[n + 1..].bytes().take(2).take_while(|b| *b == b'/').count()
}

/// What a path denotes: its root, the steps up, and the names below.
fn denote(p: &str) -> (&str, usize, Vec<&str>) {
    let root = if p.starts_with('/') { "/" } else if p.starts_with("./") { "./" } else { "" };
    let (mut up, mut names): (usize, Vec<&str>) = (0, vec![]);
    for s in p[root.len()..].split('/') {
        match s {
            "." => {}
            ".." => {
                if names.pop().is_none() && root != "/" {
                    up += 1
                }
            }
            // Nothing to descend from: a leading slash would mean the root.
            "" if names.is_empty() && up == 0 && root.is_empty() => {}
            _ => names.push(s),
        }
    }
    if up == 0 && names == [""] {
        names.clear();
    }
    (root, up, names)
}

fn check(case: &[String]) -> Out {
    let [context, target, rest @ ..] = case else { return Out::Skip };
    let start = rest.first().map(|s| s.as_str());
    if !CTX.contains(&context.as_str()) {
        return Out::Skip;
    }
    // An empty start path puts a slash before the target (pinned by a test).
    if start == Some("") && context != "image" {
        return Out::Skip;
    }
    let nav = |s: &str| if context == "windows" { s.replace('\\', "/") } else { s.to_string() };
    let (t, s) = (nav(target), start.map(nav));
    let uri_target = context == "image" && uri_prefix(&t) > 0;
    let joined = match &s {
        Some(s) if !t.starts_with('/') && !uri_target && !s.is_empty() => format!("{s}{}{t}", if s.ends_with('/') { "" } else { "/" }),
        _ => t.clone(),
    };
    let prefixed = s.is_some() && !t.starts_with('/') && (context != "image" || start != Some(""));
    let n = if prefixed { uri_prefix(&joined) } else { 0 };
    let mut p = Parser::default();
    let pr = PathResolver { file_separator: if context == "windows" { '\\' } else { '/' } };
    let got = if context == "image" {
        if target.is_empty() || target.contains(['[', ']', '\\', '{', '&', '<', '>', '\n', '*', '_', '`', '#', '^', '~', '+', '\'', '"']) || target.contains("--") || target.contains("..") && target.contains("...") || target.starts_with([' ', ':']) || target.ends_with(' ') || target.contains("((") || target.contains("->") {
            return Out::Skip;
        }
        if start.is_some_and(|s| s.contains(['&', '<', '>', '"', '\''])) {
            return Out::Skip;
        }
        if let Some(s) = start {
            p = p.with_intrinsic_attribute("imagesdir", s, ModificationContext::Anywhere);
        }
        let doc = format!("a image:{target}[alt] b");
        let d = p.parse(&doc);
        let Some(r) = walk::all_blocks(&d).iter().find_map(|b| b.rendered_content()).map(str::to_string) else { return Out::Fail(format!("{doc:?}: no paragraph")) };
        let Some(x) = r.split("src=\"").nth(1).and_then(|x| x.split('"').next()) else { return Out::Fail(format!("{doc:?}: no image in {r:?}")) };
        x.to_string()
    } else {
        pr.web_path(target, start)
    };
    let what = format!("{context}: web path of {target:?} from {start:?} is {got:?}");
    if uri_target {
        fail_if!(got != t.replace(' ', "%20"), "{what}: the target is a URI");
        return Out::Pass(true);
    }
    fail_if!(!got.starts_with(&joined[..n]), "{what}: it doesn't begin with {:?}", &joined[..n]);
    let (body, want) = (&got[n..], joined[n..].replace(' ', "%20"));
    fail_if!(body.contains(' '), "{what}: it has a space");
    let (r, u, names) = denote(&want);
    fail_if!(denote(body) != (r, u, names.clone()), "{what}, which denotes {:?}, expected {:?}", denote(body), (r, u, names));
    // Canonical: the root, the steps up, the names; nothing else.
    let c = format!("{r}{}", (0..u).map(|_| "..").chain(names.iter().copied()).collect::<Vec<_>>().join("/"));
    fail_if!(body != c, "{what}, expected {:?}", format!("{}{c}", &joined[..n]));
    let again = pr.web_path(body, None);
    fail_if!(again != body, "{what}; once more gives {again:?}");
    Out::Pass(want.contains("..") || want.contains("./") || n > 0)
}

const SEG: &[&str] = &["a", "..", ".", "", "b c", "...", "é", "..a", "a.", "%20", "h:1", "\\", "a\\..\\b", ".a"];
const STARTS: &[&str] = &["", "/", "./", ".", "..", "../x", "i", "i/", "i/j", "/r", "/r/..", "http://h", "http://h/b/", "file:///d", "ab:", "x:y", "a.b+c-1://", "i//", "i/..", "s p", "C:\\x", "é1:/z", "1a:/z", "data:"];
const CTX: &[&str] = &["posix", "windows", "image"];

fn max(t: bool) -> usize {
    if t { 6 } else { 4 }
}

fn ex_count(t: bool) -> u64 {
    seq_count(SEG.len(), max(t)) * (STARTS.len() as u64 + 1) * 3
}

fn ex_case(mut i: u64, t: bool) -> Vec<String> {
    let c = CTX[(i % 3) as usize];
    i /= 3;
    let m = STARTS.len() as u64 + 1;
    let s = (i % m) as usize;
    i /= m;
    let mut v = vec![c.to_string(), seq_nth(SEG, max(t), i).join("/")];
    if s > 0 {
        v.push(STARTS[s - 1].to_string());
    }
    v
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let path = |r: &mut Rng, n: usize| (0..r.range(1, n)).map(|_| if r.pct(60) { r.pick(&SEG[..4]) } else { r.pick(SEG) }.to_string()).collect::<Vec<_>>().join("/");
    let mut t = path(r, 9);
    if r.pct(15) {
        t = format!("{}{t}", r.pick(STARTS));
    }
    let mut v = vec![r.pick(CTX).to_string(), t];
    if r.pct(70) {
        let s = if r.pct(50) { r.pick(STARTS).to_string() } else { path(r, 6) };
        v.push(s);
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "every target of up to four segments (six in the thorough tier) from fourteen kinds, from 24 start paths and none, with either separator and through an image macro; then random longer ones; compared with what the path denotes, and resolved again; non-trivial = a dot segment or a URI",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (600_000, 50_000_000),
        random_case,
        check,
    }
}
