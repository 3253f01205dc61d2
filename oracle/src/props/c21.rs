//! Block metadata: every block has exactly what is written above it.
use asciidoc_parser::{
    HasSpan, Parser,
    blocks::{Block, IsBlock},
};

use crate::{common::*, rng::Rng, walk};

/// What the lines above a block say.
#[derive(Default, Clone, PartialEq, Debug)]
struct M {
    title: Option<String>,
    title_source: Option<String>,
    anchor: Option<String>,
    reftext: Option<String>,
    list: Option<String>,
    id: Option<String>,
    style: Option<String>,
    roles: Vec<String>,
    options: Vec<String>,
}

// Attribute lists with their style, ID, roles and options.
type L = (&'static str, Option<&'static str>, Option<&'static str>, &'static [&'static str], &'static [&'static str]);
const LISTS: &[L] = &[
    ("st", Some("st"), None, &[], &[]),
    ("st#i1.r1.r2%o1%o2", Some("st"), Some("i1"), &["r1", "r2"], &["o1", "o2"]),
    (".r3", None, None, &["r3"], &[]),
    ("#i4", None, Some("i4"), &[], &[]),
    ("%o5", None, None, &[], &["o5"]),
    ("role=\"r6 r7\",opts=\"o6,o7\",id=i6", None, Some("i6"), &["r6", "r7"], &["o6", "o7"]),
    ("st2,second,k=v", Some("st2"), None, &[], &[]),
    ("st3.r8,role=r9", Some("st3"), None, &["r8", "r9"], &[]),
    ("k=v", None, None, &[], &[]),
    ("", None, None, &[], &[]),
    ("\"q.r\"", None, None, &[], &[]),
    ("options=o8", None, None, &[], &["o8"]),
];
const TITLES: &[(&str, &str)] = &[("Title", "Title"), ("A *b* c", "A <strong>b</strong> c"), ("x < y", "x &lt; y"), ("T.", "T."), ("[t]", "[t]"), ("é", "é"), ("= x", "= x"), ("-z-", "-z-")];
const ANCHORS: &[(&str, Option<&str>)] = &[("a1", None), ("_b", None), ("a:2", None), ("a3", Some("Ref text")), ("a4", Some(" x, y")), ("é5", None)];

fn apply(m: &mut M, line: &str) -> Option<()> {
    if let Some(t) = line.strip_prefix('.') {
        let (_, r) = TITLES.iter().find(|(s, _)| *s == t)?;
        if m.title.is_some() {
            return None;
        }
        m.title = Some(r.to_string());
        m.title_source = Some(t.to_string());
    } else if let Some(a) = line.strip_prefix("[[").and_then(|l| l.strip_suffix("]]")) {
        let (id, r) = a.split_once(',').map_or((a, None), |(i, r)| (i, Some(r)));
        if m.anchor.is_some() || !ANCHORS.contains(&(id, r)) {
            return None;
        }
        m.anchor = Some(id.into());
        m.reftext = r.map(str::to_string);
    } else {
        let l = line.strip_prefix('[')?.strip_suffix(']')?;
        let (_, style, id, roles, options) = LISTS.iter().find(|x| x.0 == l)?;
        if m.list.is_some() {
            return None;
        }
        m.list = Some(l.into());
        m.style = style.map(str::to_string);
        m.id = id.map(str::to_string);
        m.roles = roles.iter().map(|s| s.to_string()).collect();
        m.options = options.iter().map(|s| s.to_string()).collect();
    }
    Some(())
}

fn got<'a>(b: &'a Block<'a>) -> M {
    M {
        title: b.title().map(str::to_string),
        title_source: b.title_source().map(|s| s.data().to_string()),
        anchor: b.anchor().map(|s| s.data().to_string()),
        reftext: b.anchor_reftext().map(|s| s.data().to_string()),
        list: b.attrlist().map(|a| a.span().data().to_string()),
        id: b.attrlist().and_then(|a| a.id()).map(str::to_string),
        style: b.declared_style().map(str::to_string),
        roles: b.roles().iter().map(|s| s.to_string()).collect(),
        options: b.options().iter().map(|s| s.to_string()).collect(),
    }
}

// Kinds of block: lines with a marker, and lines of a block inside.
const KINDS: &[(&str, &str, &str)] = &[
    ("para", "MARK text\nmore", ""),
    ("indented", " MARK\n  x", ""),
    ("listing", "----\nMARK\n.not\n[not]\n----", ""),
    ("literal", "....\nMARK\n....", ""),
    ("pass", "++++\nMARK\n++++", ""),
    ("example", "====\nMARK in\n====", "MARK in"),
    ("sidebar", "****\nMARK in\n\nz\n****", "MARK in"),
    ("open", "--\nMARK in\n--", "MARK in"),
    ("quote", "____\nMARK in\n____", "MARK in"),
    ("unterminated", "====\nMARK in", "MARK in"),
    ("empty", "====\n====", ""),
    ("image", "image::MARK[alt,id=no,role=no]", ""),
    ("video", "video::MARK[]", ""),
    ("audio", "audio::MARK[]", ""),
    ("break", "'''", ""),
    ("page", "<<<", ""),
    ("section", "== MARK\n\nMARK in", "MARK in"),
    ("entry", ":k: v", ""),
];

fn check(case: &[String]) -> Out {
    let [place, rest @ ..] = case else { return Out::Skip };
    // Blocks: kind, then lines of metadata; separated by "|".
    let blocks: Vec<&[String]> = rest.split(|s| s == "|").collect();
    let lone = (rest.last().is_some_and(|l| l.starts_with(['.', '['])) && blocks.last().is_some_and(|b| b.first().is_some_and(|k| k == "none"))).then(|| blocks.last().unwrap()[1].as_str());
    let blocks = if lone.is_some() { &blocks[..blocks.len() - 1] } else { &blocks[..] };
    if lone.is_some() && place != "top" && place != "first" {
        return Out::Skip;
    }
    let mut text = String::new();
    let mut want: Vec<(String, M, bool)> = vec![];
    let mut any = false;
    for (i, b) in blocks.iter().enumerate() {
        let [kind, lines @ ..] = b else { return Out::Skip };
        let Some((_, src, inner)) = KINDS.iter().find(|k| k.0 == kind) else { return Out::Skip };
        let last = i + 1 == blocks.len();
        if (*kind == "unterminated" || *kind == "section") && !last || (*kind == "section" && place != "top" && place != "section") || (kind == "entry" && !lines.is_empty()) {
            return Out::Skip;
        }
        if place == "in example" && ["example", "unterminated", "empty"].contains(&kind.as_str()) || place.starts_with("in sidebar") && kind == "sidebar" || place == "first" && kind == "entry" {
            return Out::Skip;
        }
        let mut m = M::default();
        for l in lines {
            if apply(&mut m, l).is_none() {
                return Out::Skip;
            }
            text.push_str(l);
            text.push('\n');
        }
        let mark = format!("mk{i}");
        let mut src = src.replace("MARK", &mark);
        if place == "section" && kind == "section" {
            src = src.replace("== ", "=== ");
        }
        text.push_str(&src);
        text.push_str("\n\n");
        any |= m != M::default();
        // An attribute list can style a paragraph into one that isn't.
        want.push((src, m, false));
        if !inner.is_empty() {
            want.push((inner.replace("MARK", &mark), M::default(), true));
        }
    }
    if lone.is_some() {
        for l in rest.rsplit(|s| s == "|").next().unwrap_or_default().iter().skip(1) {
            if apply(&mut M::default(), l).is_none() {
                return Out::Skip;
            }
            text.push_str(l);
            text.push('\n');
        }
    }
    let doc = match place.as_str() {
        "first" => text.clone(),
        "top" => format!("before\n\n{text}"),
        "section" => format!("== S\n\nbefore\n\n{text}"),
        "in example" => format!("====\nbefore\n\n{text}====\n\nafter\n"),
        "in sidebar in section" => format!("== S\n\n****\n{text}****\n\nafter\n"),
        _ => return Out::Skip,
    };
    let mut p = Parser::default();
    let d = p.parse(&doc);
    let bs = walk::all_blocks(&d);
    let mut left: Vec<&(String, M, bool)> = want.iter().collect();
    for b in bs {
        let s = b.span().data();
        if matches!(b, Block::Preamble(_)) {
            continue;
        }
        let g = got(b);
        // The block is the one whose text its own begins with, after the metadata.
        let body = s.lines().skip(g.title.is_some() as usize + g.anchor.is_some() as usize + g.list.is_some() as usize).collect::<Vec<_>>().join("\n");
        let hit = left.iter().position(|w| body.starts_with(w.0.as_str()) && (w.2 || w.0.lines().next() == body.lines().next()));
        let Some(k) = hit else {
            if g != M::default() {
                return Out::Fail(format!("{doc:?}: the block {s:?} has {g:?}, but nothing is written above it"));
            }
            continue;
        };
        let w = left.remove(k);
        if g != w.1 {
            return Out::Fail(format!("{doc:?}: the block {s:?} has {g:?}, expected {:?}", w.1));
        }
        let id = w.1.anchor.clone().or(w.1.id.clone());
        let bid = b.id().map(str::to_string);
        if bid != id && !(matches!(b, Block::Section(_)) && id.is_none()) {
            return Out::Fail(format!("{doc:?}: the block {s:?} has the ID {bid:?}, expected {id:?}"));
        }
        for o in ["o1", "o6", "o8", "zz"] {
            if b.has_option(o) != w.1.options.iter().any(|x| x == o) {
                return Out::Fail(format!("{doc:?}: has_option({o:?}) of the block {s:?} is {}", b.has_option(o)));
            }
        }
    }
    // Metadata lines that nothing follows are a paragraph, which has none itself.
    let lone_at = lone.and_then(|l| doc.rfind(&format!("\n\n{l}")).map(|i| i + 2));
    for b in walk::all_blocks(&d).into_iter().filter(|b| lone_at.is_some_and(|at| b.span().byte_offset() >= at)) {
        let g = got(b);
        if g != M::default() || b.id().is_some() {
            return Out::Fail(format!("{doc:?}: the block {:?} has {g:?} and the ID {:?}, but nothing is written above it", b.span().data(), b.id()));
        }
    }
    if let Some(w) = left.first() {
        return Out::Fail(format!("{doc:?}: no block {:?} with {:?} (blocks: {:?})", w.0, w.1, walk::all_blocks(&d).iter().map(|b| b.span().data().to_string()).collect::<Vec<_>>()));
    }
    Out::Pass(any)
}

const PLACES: &[&str] = &["first", "top", "section", "in example", "in sidebar in section"];

fn lines(t: usize, a: usize, l: usize, order: usize) -> Vec<String> {
    let mut v = vec![];
    if t > 0 {
        v.push(format!(".{}", TITLES[t - 1].0));
    }
    if a > 0 {
        let (id, r) = ANCHORS[a - 1];
        v.push(format!("[[{id}{}]]", r.map(|r| format!(",{r}")).unwrap_or_default()));
    }
    if l > 0 {
        v.push(format!("[{}]", LISTS[l - 1].0));
    }
    if v.len() == 3 {
        for _ in 0..order % 3 {
            v.rotate_left(1);
        }
    }
    if order >= 3 {
        v.reverse();
    }
    v
}

fn ex_count(_: bool) -> u64 {
    (PLACES.len() * KINDS.len() * (TITLES.len() + 1) * (ANCHORS.len() + 1) * (LISTS.len() + 1) * 6) as u64
}

fn ex_case(i: u64, _: bool) -> Vec<String> {
    let mut i = i as usize;
    let mut take = |n: usize| {
        let r = i % n;
        i /= n;
        r
    };
    let (t, a, l, o, k, p) = (take(TITLES.len() + 1), take(ANCHORS.len() + 1), take(LISTS.len() + 1), take(6), take(KINDS.len()), take(PLACES.len()));
    let mut v = vec![PLACES[p].to_string(), KINDS[k].0.to_string()];
    v.extend(lines(t, a, l, o));
    if !["unterminated", "section"].contains(&KINDS[k].0) {
        v.extend(["|".into(), "para".into()]);
    }
    v
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let mut v = vec![r.pick(PLACES).to_string()];
    let n = r.range(1, 6);
    for i in 0..n {
        if i > 0 {
            v.push("|".into());
        }
        if i > 0 && i + 1 == n && r.pct(30) {
            v.push("none".into());
            v.extend(lines(r.range(0, TITLES.len()), r.range(0, ANCHORS.len()), r.range(0, LISTS.len()), r.range(0, 5)));
            break;
        }
        let k = KINDS[r.range(0, KINDS.len() - 1)].0;
        let k = if i + 1 < n && (k == "unterminated" || k == "section") || k == "section" && v[0] != "top" { "para" } else { k };
        v.push(k.into());
        if k != "entry" && r.pct(75) {
            v.extend(lines(r.range(0, TITLES.len()), r.range(0, ANCHORS.len()), r.range(0, LISTS.len()), r.range(0, 5)));
        }
    }
    v
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "every combination of eight titles, six anchors and twelve attribute lists, in every order, above eighteen kinds of block in five places; then random sequences of such blocks; each block's metadata compared with what is written above it; non-trivial = some metadata",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (300_000, 20_000_000),
        random_case,
        check,
    }
}
