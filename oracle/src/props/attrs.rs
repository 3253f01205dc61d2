//! Attribute entries, locks and references, against a line-by-line model.
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    blocks::{Block, IsBlock},
    document::InterpretedValue,
    parser::{IncludeFileHandler, ModificationContext},
};

use crate::{common::*, fail_if, rng::Rng, walk};

#[derive(Clone, Debug, PartialEq)]
enum Val {
    Is(String),
    Set,
    Unset,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    /// name as written, value
    Attr(String, Val),
    BlockTitle(String),
    Section(String),
    Text(String),
}

type State = BTreeMap<String, (Val, char)>;

#[derive(Default)]
struct Model {
    st: State,
    title: Option<String>,
    evs: Vec<Ev>,
    /// (byte offset, name)
    locked: Vec<(usize, String)>,
    seen: (bool, bool, bool), // entry, reference, refusal
    breaks: bool,
}

fn name_at(s: &str) -> Option<&str> {
    let n = s.bytes().take_while(|b| b.is_ascii_alphanumeric() || *b == b'_' || *b == b'-').count();
    if n == 0 || s.as_bytes()[0] == b'-' { None } else { Some(&s[..n]) }
}

fn lookup(st: &State, name: &str) -> Option<Val> {
    let (v, _) = st.get(name)?;
    Some(if *v == Val::Set && name == "toc" { Val::Is("auto".into()) } else { v.clone() })
}

fn refs(st: &State, s: &str, seen: &mut bool) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        let esc = s[i..].starts_with('\\');
        let j = i + esc as usize;
        if s[j..].starts_with('{')
            && let Some(n) = name_at(&s[j + 1..])
            && s[j + 1 + n.len()..].starts_with('}')
        {
            let end = j + n.len() + 2;
            match lookup(st, n) {
                None => out.push_str(&s[i..end]),
                Some(_) if esc => out.push_str(&s[j..end]),
                Some(Val::Is(v)) => {
                    *seen = true;
                    out.push_str(&v);
                }
                Some(_) => {}
            }
            i = end;
            continue;
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    out
}

fn esc(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
}

/// (name as written, value parts or none, unset, number of lines)
enum Entry {
    No,
    Outside,
    Yes { name: String, unset: bool, value: Option<String>, lines: usize },
}

fn entry(lines: &[&str]) -> Entry {
    let l0 = lines[0].trim_end_matches(' ');
    let Some(mut r) = l0.strip_prefix(':') else { return Entry::No };
    let mut unset = false;
    if let Some(x) = r.strip_prefix('!') {
        unset = true;
        r = x;
    }
    let Some(name) = name_at(r) else { return Entry::No };
    r = &r[name.len()..];
    if let Some(x) = r.strip_prefix('!') {
        if unset {
            return Entry::No;
        }
        unset = true;
        r = x;
    }
    let Some(r) = r.strip_prefix(':') else { return Entry::No };
    if !r.is_empty() && !r.starts_with([' ', '\t']) {
        return Entry::No;
    }
    // Physical lines.
    let mut n = 1;
    while n <= lines.len() && lines[n - 1].trim_end_matches(' ').ends_with('\\') {
        n += 1;
    }
    let n = n.min(lines.len());
    let name = name.to_string();
    if unset {
        return Entry::Yes { name, unset, value: None, lines: n };
    }
    let first = r.trim_start_matches([' ', '\t']);
    let mut parts: Vec<&str> = vec![first];
    parts.extend(lines[1..n].iter().map(|l| l.trim_matches(' ')));
    while parts.len() > 1 && parts.last().is_some_and(|l| l.is_empty()) {
        parts.pop();
    }
    let last = parts.len() - 1;
    let mut v = String::new();
    for (i, p) in parts.iter().enumerate() {
        let mut t = *p;
        if t.ends_with('\\') {
            t = t[..t.len() - 1].trim_end_matches(' ');
            if t.is_empty() || t.ends_with('\\') {
                return Entry::Outside;
            }
        }
        if i == last {
            v.push_str(t);
        } else if let Some(h) = t.strip_suffix(" +") {
            v.push_str(h.trim_end_matches(' '));
            v.push('\n');
        } else {
            v.push_str(t);
            v.push(' ');
        }
    }
    // Passthroughs in values are another property's matter.
    if v.char_indices().any(|(i, c)| c == '+' && v[i + 1..].starts_with(|d: char| !d.is_whitespace())) {
        return Entry::Outside;
    }
    let value = if r.is_empty() { None } else { Some(v) };
    Entry::Yes { name, unset, value, lines: n }
}

impl Model {
    fn key(name: &str) -> String {
        let k = name.to_lowercase();
        if k == "hardbreaks" { "hardbreaks-option".into() } else { k }
    }

    fn set(&mut self, name: &str, v: Val, header: bool) -> bool {
        let k = Self::key(name);
        let ctx = self.st.get(&k).map(|e| e.1).unwrap_or('X');
        if ctx == 'X' || ctx == if header { 'H' } else { 'B' } {
            self.st.insert(k, (v, ctx));
            true
        } else {
            false
        }
    }

    fn do_entry(&mut self, name: &str, unset: bool, value: Option<String>, at: usize, header: bool) {
        self.seen.0 = true;
        let v = match (unset, value) {
            (true, _) => Val::Unset,
            (_, None) => Val::Set,
            (_, Some(s)) => {
                let mut x = false;
                Val::Is(refs(&self.st, &esc(&s), &mut x))
            }
        };
        self.evs.push(Ev::Attr(name.to_string(), v.clone()));
        if !self.set(name, v, header) {
            self.seen.2 = true;
            self.locked.push((at, Self::key(name)));
        }
    }

    fn text(&mut self, s: &str) -> String {
        let mut seen = self.seen.1;
        let r = refs(&self.st, &esc(s), &mut seen);
        self.seen.1 = seen;
        // Line breaks are another matter.
        if r.contains(" +\n") || r.ends_with(" +") || matches!(lookup(&self.st, "hardbreaks-option"), Some(Val::Is(_) | Val::Set)) {
            self.breaks = true;
        }
        r
    }

    /// None: outside the class.
    fn run(&mut self, doc: &str) -> Option<()> {
        let mut at = 0;
        let lines: Vec<&str> = doc.split('\n').collect();
        let offs: Vec<usize> = lines
            .iter()
            .map(|l| {
                let a = at;
                at += l.len() + 1;
                a
            })
            .collect();
        let n = lines.len();
        let mut i = 0;
        let (mut author, mut rev) = (false, false);
        self.evs.clear();
        self.locked.clear();
        self.title = None;
        while i < n {
            let l = lines[i].trim_end_matches(' ');
            if l.is_empty() {
                if self.title.is_some() {
                    break;
                }
                i += 1;
                continue;
            }
            if l.starts_with("//") {
                if l.starts_with("///") {
                    return None;
                }
                i += 1;
                continue;
            }
            if l.starts_with(':') {
                match entry(&lines[i..]) {
                    Entry::Outside => return None,
                    Entry::Yes { name, unset, value, lines } => {
                        if name.eq_ignore_ascii_case("author") {
                            return None;
                        }
                        self.do_entry(&name, unset, value, offs[i], true);
                        i += lines;
                        continue;
                    }
                    Entry::No => {}
                }
            }
            if self.title.is_none() && l.starts_with("= ") {
                let t = self.text(l[2..].trim_start_matches([' ', '\t']));
                self.set("doctitle", Val::Is(t.clone()), true);
                self.title = Some(t);
                i += 1;
                continue;
            }
            if self.title.is_none() {
                break;
            }
            let mut put = |ps: &[(&str, &str)]| {
                for (k, v) in ps {
                    self.set(k, Val::Is(v.to_string()), true);
                }
            };
            match l {
                "Ann Lee" if !author => put(&[("author", "Ann Lee"), ("firstname", "Ann"), ("lastname", "Lee"), ("authorinitials", "AL")]),
                "Ann Bo Lee <a@b.c>" if !author => put(&[
                    ("author", "Ann Bo Lee"),
                    ("firstname", "Ann"),
                    ("middlename", "Bo"),
                    ("lastname", "Lee"),
                    ("authorinitials", "ABL"),
                    ("email", "a@b.c"),
                ]),
                "v1.2, 2020-01-02: Rem" if author && !rev => {
                    rev = true;
                    put(&[("revnumber", "1.2"), ("revdate", "2020-01-02"), ("revremark", "Rem")])
                }
                _ => return None,
            }
            author = true;
            i += 1;
        }
        // Body.
        let mut example: Option<&str> = None;
        let mut pending = false;
        while i < n {
            let l = lines[i].trim_end_matches(' ');
            if l.is_empty() {
                if pending {
                    return None;
                }
                i += 1;
                continue;
            }
            if Some(l) == example {
                if pending {
                    return None;
                }
                example = None;
                i += 1;
                continue;
            }
            if l == "====" || l == "****" {
                if example.is_some() {
                    return None;
                }
                if !lines[i + 1..].iter().any(|x| x.trim_end_matches(' ') == l) {
                    return None;
                }
                example = Some(l);
                pending = false;
                i += 1;
                continue;
            }
            if ["----", "....", "++++", "////"].contains(&l) {
                let k = lines[i + 1..].iter().position(|x| x.trim_end_matches(' ') == l)?;
                if let Some(e) = example
                    && lines[i + 1..i + 1 + k].iter().any(|x| x.trim_end_matches(' ') == e)
                {
                    return None;
                }
                let body = &lines[i + 1..i + 1 + k];
                if body.iter().all(|x| x.trim().is_empty()) || body[0].is_empty() || body[k - 1].is_empty() {
                    return None;
                }
                let body = body.join("\n");
                if l != "////" {
                    self.evs.push(Ev::Text(if l == "++++" { body } else { esc(&body) }));
                }
                pending = false;
                i += k + 2;
                continue;
            }
            if l.starts_with(':') && !pending {
                match entry(&lines[i..]) {
                    Entry::Outside => return None,
                    Entry::Yes { name, unset, value, lines: k } => {
                        if let Some(e) = example
                            && lines[i..i + k].iter().any(|x| x.trim_end_matches(' ') == e)
                        {
                            return None;
                        }
                        self.do_entry(&name, unset, value, offs[i], false);
                        i += k;
                        continue;
                    }
                    Entry::No => {}
                }
            }
            if l.starts_with(':') && pending {
                return None;
            }
            if let Some(t) = l.strip_prefix("== ") {
                if example.is_some() || pending || !t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '{') {
                    return None;
                }
                let t = self.text(t);
                self.evs.push(Ev::Section(t));
                i += 1;
                continue;
            }
            if let Some(t) = l.strip_prefix('.') {
                if pending || !t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '{') {
                    return None;
                }
                let t = self.text(t);
                self.evs.push(Ev::BlockTitle(t));
                pending = true;
                i += 1;
                continue;
            }
            if !l.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '{' || c == '\\' || c == ':') {
                return None;
            }
            // Paragraph.
            pending = false;
            let mut p = vec![];
            while i < n {
                let t = lines[i].trim_end_matches(' ');
                if t.is_empty() || Some(t) == example {
                    break;
                }
                if !t.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '{' || c == '\\' || c == ':') {
                    return None;
                }
                if t.contains(['*', '`', '+', '\t']) {
                    return None;
                }
                p.push(t);
                i += 1;
            }
            let p = p.join("\n");
            let t = self.text(&p);
            self.evs.push(Ev::Text(t));
        }
        if pending || example.is_some() { None } else { Some(()) }
    }
}

fn ctx(c: char) -> ModificationContext {
    match c {
        'A' => ModificationContext::ApiOnly,
        'H' => ModificationContext::ApiOrHeader,
        'B' => ModificationContext::ApiOrDocumentBody,
        _ => ModificationContext::Anywhere,
    }
}

fn val(v: &InterpretedValue) -> Val {
    match v {
        InterpretedValue::Value(s) => Val::Is(s.clone()),
        InterpretedValue::Set => Val::Set,
        InterpretedValue::Unset => Val::Unset,
    }
}

const NAMES: &[&str] = &[
    "a", "b", "c2", "d-e", "_f", "toc", "sp", "empty", "hardbreaks-option", "hardbreaks", "doctitle", "author", "firstname", "middlename", "lastname", "authorinitials", "email", "revnumber",
    "revdate", "revremark",
];

#[derive(Debug, Clone)]
struct Inc(Rc<RefCell<Vec<String>>>);

impl IncludeFileHandler for Inc {
    fn resolve_target<'src>(&self, _s: Option<&str>, target: &str, _a: &Attrlist<'src>, _p: &Parser) -> Option<String> {
        self.0.borrow_mut().push(target.to_string());
        Some(format!("got {target}\n"))
    }
}

/// The values in force where each include line stands, by the model: run it on
/// the lines before.
fn include_targets(st0: &State, doc: &str) -> Option<(Vec<String>, String)> {
    let mut out = vec![];
    let mut text = String::new();
    for l in doc.split('\n') {
        if let Some(t) = l.strip_prefix("include::").and_then(|t| t.strip_suffix("[]")) {
            let mut m = Model { st: st0.clone(), ..Default::default() };
            m.run(&text)?;
            if t.contains('\\') || t.is_empty() {
                return None;
            }
            let mut x = false;
            let v = refs(&m.st, t, &mut x);
            if v.contains(['&', '<', '>', '\n', '{']) {
                return None;
            }
            text.push_str(&format!("got {v}\n"));
            out.push(v);
        } else {
            text.push_str(l);
            text.push('\n');
        }
    }
    text.pop();
    Some((out, text))
}

/// An attribute entry inside a paragraph that starts the document, or in a
/// verbatim block: the preprocessor's view differs there.
fn include_class(doc: &str) -> bool {
    let ls: Vec<&str> = doc.split('\n').collect();
    for (i, l) in ls.iter().enumerate() {
        if ["----", "....", "++++", "////", "====", "****"].contains(&l.trim_end()) {
            return false;
        }
        if l.starts_with(':') && i > 0 {
            let p = ls[i - 1];
            if !(p.trim().is_empty() || p.starts_with(":") && entry_ok(p) || p.starts_with("= ") || p.starts_with("// ")) {
                return false;
            }
        }
        if l.ends_with('\\') || l.ends_with(' ') {
            return false;
        }
    }
    true
}

fn check(case: &[String], which: u8) -> Out {
    let [config, doc] = case else { return Out::Skip };
    let mut st: State = BTreeMap::new();
    for (k, v, c) in [("toc", Val::Unset, 'H'), ("sp", Val::Is(" ".into()), 'A'), ("empty", Val::Is("".into()), 'A')] {
        st.insert(k.into(), (v, c));
    }
    let mut parser = Parser::default();
    for item in config.split(';').filter(|s| !s.is_empty()) {
        let f: Vec<&str> = item.splitn(3, ':').collect();
        let [name, c, v] = f.as_slice() else { return Out::Skip };
        let c = c.chars().next().unwrap_or('X');
        let mv = match *v {
            "!" => Val::Unset,
            "=" => Val::Set,
            v => Val::Is(v.to_string()),
        };
        parser = match &mv {
            Val::Is(s) => parser.with_intrinsic_attribute(name, s, ctx(c)),
            v => parser.with_intrinsic_attribute_bool(name, *v == Val::Set, ctx(c)),
        };
        st.insert(name.to_lowercase(), (mv, c));
    }
    if doc.contains('\r') || doc.contains("\nif") || doc.starts_with("if") {
        return Out::Skip;
    }
    let has_include = doc.starts_with("include::") || doc.contains("\ninclude::");
    let seen_targets = Rc::new(RefCell::new(vec![]));
    let mut eff = doc.clone();
    if has_include {
        if !include_class(doc) {
            return Out::Skip;
        }
        let Some((targets, text)) = include_targets(&st, doc) else { return Out::Skip };
        eff = text;
        parser = parser.with_include_file_handler(Inc(seen_targets.clone()));
        let mut m = Model { st: st.clone(), ..Default::default() };
        if m.run(&eff).is_none() {
            return Out::Skip;
        }
        let d = parser.clone().parse(doc);
        let _ = d.source_map();
        let got = seen_targets.borrow().clone();
        if which == 17 {
            fail_if!(got != targets, "include targets {got:?}, expected {targets:?}");
        }
        seen_targets.borrow_mut().clear();
    }
    let mut m = Model { st, ..Default::default() };
    for round in 0..(1 + !has_include as usize) {
        if m.run(&eff).is_none() {
            return Out::Skip;
        }
        let d = parser.parse(doc);
        let mut evs = vec![];
        for a in d.header().attributes() {
            evs.push(Ev::Attr(a.name().data().to_string(), val(a.value())));
        }
        for b in walk::all_blocks(&d) {
            if let Some(t) = b.title() {
                evs.push(Ev::BlockTitle(t.to_string()));
            }
            match b {
                Block::DocumentAttribute(a) => evs.push(Ev::Attr(a.name().data().to_string(), val(a.value()))),
                Block::Section(s) => evs.push(Ev::Section(s.section_title().to_string())),
                _ => {}
            }
            if b.raw_context().as_ref() == "comment" {
                continue;
            }
            if let Some(t) = b.rendered_content() {
                evs.push(Ev::Text(t.to_string()));
            }
        }
        if m.breaks && which == 17 {
            return Out::Skip;
        }
        let is_attr = |e: &&Ev| matches!(e, Ev::Attr(..));
        let (want, got): (Vec<&Ev>, Vec<&Ev>) = match which {
            16 => (m.evs.iter().filter(is_attr).collect(), evs.iter().filter(is_attr).collect()),
            _ => (m.evs.iter().collect(), evs.iter().collect()),
        };
        if which != 9 {
            let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            fail_if!(want != got, "round {round}: item {i} is {:?}, expected {:?}", got.get(i), want.get(i));
            fail_if!(d.header().title() != m.title.as_deref(), "document title is {:?}, expected {:?}", d.header().title(), m.title);
        }
        if which == 9 {
            for n in NAMES {
                let want = lookup(&m.st, n);
                let got = parser.has_attribute(n).then(|| val(&parser.attribute_value(n)));
                fail_if!(want != got, "round {round}: attribute {n} ends as {got:?}, expected {want:?}");
                let set = !matches!(want, None | Some(Val::Unset));
                fail_if!(parser.is_attribute_set(n) != set, "round {round}: is_attribute_set({n}) is {}", !set);
            }
            let mut want = m.locked.clone();
            let mut got: Vec<(usize, String)> = d
                .warnings()
                .filter_map(|w| {
                    let t = format!("{:?}", w.warning);
                    let n = t.split_once("AttributeValueIsLocked(\"")?.1.strip_suffix("\")")?;
                    Some((w.source.byte_offset(), n.to_string()))
                })
                .collect();
            want.sort();
            got.sort();
            fail_if!(want != got, "round {round}: refusals reported {got:?}, expected {want:?}");
        }
    }
    Out::Pass(match which {
        9 => m.seen.2,
        16 => m.seen.0,
        _ => m.seen.1,
    })
}

const LINES: &[&str] = &[
    "", "= T {a}", ":a: 1", ":!a:", ":a:", ":b: x{a}", "t {a} {b}", ":A: 2", "\\{a} {c2}", "== S {a}", "----", "====", ".B {a}", ":a: p \\", ":a: p + \\",
];

const CONFIGS: &[&str] = &["", "a:A:k", "a:H:k", "a:B:k", "a:X:k", "a:A:!;b:H:=", "b:B:!"];

fn ex_count(t: bool) -> u64 {
    seq_count(LINES.len(), if t { 4 } else { 3 }) * CONFIGS.len() as u64
}

fn ex_case(i: u64, t: bool) -> Vec<String> {
    let k = CONFIGS.len() as u64;
    vec![CONFIGS[(i % k) as usize].to_string(), seq_nth(LINES, if t { 4 } else { 3 }, i / k).join("\n")]
}

fn value(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(&["v1", " ", "two words", "*s*", "1<2", "R&D", "{a}", "{b}", "\\{a}", "{c2}", "`c`", "é", "a +", "+", "x  y", ":", "!", "{d-e}", "{", "}", "\\"]));
    }
    s
}

fn any_name(r: &mut Rng) -> String {
    match r.below(12) {
        0..=5 => r.pick(&["a", "b", "c2"]).to_string(),
        6 => r.pick(&["A", "B", "C2"]).to_string(),
        7 => r.pick(&["d-e", "_f"]).to_string(),
        8 => r.pick(&["-x", "é", "a b", "", "a.b", "hardbreaks", "Toc"]).to_string(),
        _ => r.pick(NAMES).to_string(),
    }
}

fn entry_lines(r: &mut Rng, out: &mut Vec<String>) {
    let n = any_name(r);
    let head = match r.below(10) {
        0 => format!(":!{n}:"),
        1 => format!(":{n}!:"),
        2 => format!(":!{n}!:"),
        3 if r.pct(30) => format!(":{n}"),
        _ => format!(":{n}:"),
    };
    let sep = r.pick(&[" ", " ", " ", "  ", "\t", " \t", ""]);
    let mut l = match r.below(8) {
        0 => head,
        1 => format!("{head}{}", r.pick(&[" ", "x", "", "!", " x"])),
        _ => format!("{head}{sep}{}", value(r)),
    };
    let k = if r.pct(25) { r.range(1, 3) } else { 0 };
    for _ in 0..k {
        l.push_str(r.pick(&[" \\", " \\", " + \\", "\\", "  + \\", " +\\", " \\ "]));
        out.push(l);
        l = match r.below(6) {
            0 => String::new(),
            1 => format!("  {}", value(r)),
            2 => ":b: z".to_string(),
            _ => value(r),
        };
    }
    if r.pct(8) {
        l.push_str("  ");
    }
    out.push(l);
}

fn text(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut s = r.pick(&["t", "w ", "{a}", "{b}", "\\{a}"]).to_string();
    for _ in 0..n {
        s.push_str(r.pick(&[" ", "{a}", "{b}", "{c2}", "{d-e}", "\\{a}", "\\{b}", "\\{zz}", "{zz}", "{A}", "{{a}}", "{ a}", "{a", "}", "{sp}", "{empty}", "{toc}", "x", "1<2", "R&D", "{doctitle}", "{author}", "{_f}"]));
    }
    s
}

fn random_case(r: &mut Rng, which: u8) -> Vec<String> {
    let mut conf = vec![];
    for _ in 0..r.below(4) {
        let n = r.pick(&["a", "b", "c2", "A", "d-e", "doctitle", "firstname", "author", "revnumber", "email", "toc", "hardbreaks-option"]);
        conf.push(format!("{n}:{}:{}", r.pick(&["A", "H", "B", "X"]), r.pick(&["k1", "K two", "!", "="])));
    }
    let mut ls: Vec<String> = vec![];
    let inc = which == 17 && r.pct(25);
    if r.pct(60) {
        if !inc && r.pct(20) {
            ls.push(String::new());
        }
        for _ in 0..r.below(3) {
            entry_lines(r, &mut ls);
        }
        if r.pct(70) {
            ls.push(r.pick(&["= T", "= T {a}", "= {b} x"]).to_string());
            if r.pct(30) {
                ls.push("// note".into());
            }
            if r.pct(40) {
                ls.push(r.pick(&["Ann Lee", "Ann Bo Lee <a@b.c>"]).to_string());
                if r.pct(50) {
                    ls.push("v1.2, 2020-01-02: Rem".into());
                }
            }
            for _ in 0..r.below(3) {
                entry_lines(r, &mut ls);
            }
        }
        ls.push(String::new());
    }
    let mut open: Option<&str> = None;
    for _ in 0..r.range(1, 7) {
        match r.below(12) {
            0..=3 => {
                entry_lines(r, &mut ls);
                if r.pct(30) {
                    entry_lines(r, &mut ls);
                }
            }
            4..=6 => {
                if r.pct(20) {
                    ls.push(format!(".{}", text(r).trim_start_matches('\\')));
                }
                ls.push(text(r));
                if r.pct(20) {
                    entry_lines(r, &mut ls);
                }
            }
            7 if open.is_none() && !inc => ls.push(format!("== {}", text(r).trim_start_matches('\\'))),
            8 if !inc => {
                let d = r.pick(&["----", "....", "++++", "////"]);
                ls.push(d.to_string());
                ls.push(text(r));
                entry_lines(r, &mut ls);
                ls.push(d.to_string());
            }
            9 if !inc => {
                let d = open.take().unwrap_or_else(|| {
                    let d = r.pick(&["====", "****"]);
                    open = Some(d);
                    d
                });
                ls.push(d.to_string());
                continue;
            }
            10 | 11 if inc => ls.push(format!("include::x{}.adoc[]", r.pick(&["{a}", "{b}", "{c2}", "{a}-{b}", ""]))),
            _ => ls.push(text(r)),
        }
        if r.pct(85) {
            ls.push(String::new());
        }
    }
    if let Some(d) = open {
        ls.push(d.to_string());
    }
    if inc {
        ls.retain(|l| !l.contains(['<', '&']));
    }
    vec![conf.join(";"), ls.join("\n")]
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "documents of attribute entries, header lines and text, parsed twice by one parser with attributes locked or not; final values, set-ness and reported refusals are compared with a model of the lock rule; non-trivial = an entry was refused",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (1_500_000, 100_000_000),
        random_case: |r| random_case(r, 9),
        check: |c| check(c, 9),
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "documents of well-formed and malformed attribute entries, continuation lines and text; the entries found, their names and values are compared with an independent reading of each line; non-trivial = at least one entry",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (1_500_000, 100_000_000),
        random_case: |r| random_case(r, 16),
        check: |c| check(c, 16),
    }
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "documents whose titles, paragraphs, delimited blocks, attribute values and include targets refer to attributes set and unset around them; the rendered texts are compared with a model; non-trivial = a reference was replaced by a value",
        exhaustive: ex_count,
        exhaustive_case: ex_case,
        random: (1_500_000, 100_000_000),
        random_case: |r| random_case(r, 17),
        check: |c| check(c, 17),
    }
}

fn entry_ok(l: &str) -> bool {
    matches!(entry(&[l]), Entry::Yes { .. })
}
