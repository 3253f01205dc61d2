//! The source map: every output line traces back to its file and line.
use std::collections::HashMap;

use asciidoc_parser::{
    Parser,
    attributes::Attrlist,
    parser::{IncludeFileHandler, SourceLine},
};

use crate::{common::*, fail_if, rng::Rng};

#[derive(Debug, Clone)]
struct Files(HashMap<String, String>);

impl IncludeFileHandler for Files {
    fn resolve_target<'src>(&self, _source: Option<&str>, target: &str, _attrlist: &Attrlist<'src>, _parser: &Parser) -> Option<String> {
        self.0.get(target).cloned()
    }
}

struct M<'a> {
    files: &'a HashMap<String, String>,
    attrs: HashMap<String, String>,
    /// The last line is paragraph text, so that an entry might not be one.
    in_text: bool,
    /// An entry followed text.
    unsure: bool,
    out: Vec<(String, Option<String>, usize)>,
    depth: usize,
    simple: bool,
    includes: usize,
}

impl M<'_> {
    fn subst(&self, t: &str) -> String {
        let mut o = String::new();
        let mut rest = t;
        while let Some(a) = rest.find('{') {
            o.push_str(&rest[..a]);
            let Some(b) = rest[a..].find('}') else { break };
            let name = &rest[a + 1..a + b];
            match self.attrs.get(name) {
                Some(v) => o.push_str(v),
                None => o.push_str(&rest[a..a + b + 1]),
            }
            rest = &rest[a + b + 1..];
        }
        o.push_str(rest);
        o
    }
    fn file(&mut self, text: &str, name: Option<&str>) {
        self.depth += 1;
        if self.depth > 12 {
            self.simple = false;
            self.depth -= 1;
            return;
        }
        let mut lines: Vec<&str> = text.split('\n').collect();
        if lines.last() == Some(&"") {
            lines.pop();
        }
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].strip_suffix('\r').unwrap_or(lines[i]);
            let n = name.map(|s| s.to_string());
            if let Some(r) = l.strip_prefix("include::") {
                let Some((t, _)) = r.strip_suffix(']').and_then(|r| r.split_once('[')) else {
                    self.simple = false;
                    return;
                };
                if t.contains('{') && self.unsure {
                    self.simple = false;
                    return;
                }
                if t.is_empty() || t.contains(' ') || t.contains('\\') {
                    self.simple = false;
                    return;
                }
                let t = self.subst(t);
                self.includes += 1;
                if let Some(text) = self.files.get(&t) {
                    self.file(&text.clone(), Some(&t));
                } else {
                    self.in_text = true;
                    self.out.push((format!("Unresolved directive in {} - {l}", name.unwrap_or("(root file)")), n, i + 1));
                }
            } else if l.starts_with(':') {
                self.unsure |= self.in_text;
                if self.unsure && l.trim_end_matches(' ').ends_with('\\') {
                    self.simple = false;
                    return;
                }
                let Some((k, v)) = l[1..].split_once(": ") else {
                    self.simple = false;
                    return;
                };
                if k.is_empty() || !k.chars().all(|c| c.is_ascii_lowercase()) || v.trim().is_empty() {
                    self.simple = false;
                    return;
                }
                self.out.push((l.to_string(), n.clone(), i + 1));
                let mut val = v.to_string();
                // Continued onto the next lines.
                let mut cur = l;
                while cur.trim_end_matches(' ').ends_with('\\') {
                    i += 1;
                    let Some(next) = lines.get(i) else { break };
                    cur = next.strip_suffix('\r').unwrap_or(next);
                    self.out.push((cur.to_string(), n.clone(), i + 1));
                    val.push_str(cur);
                }
                self.attrs.insert(k.to_string(), val);
            } else {
                self.in_text = !l.trim_end_matches(' ').is_empty();
                self.out.push((l.to_string(), n, i + 1));
            }
            i += 1;
        }
        self.depth -= 1;
    }
}

fn check(case: &[String]) -> Out {
    let [primary, src, files @ ..] = case else { return Out::Skip };
    let mut map = HashMap::new();
    for (i, f) in files.iter().enumerate() {
        map.insert(format!("{}.adoc", ["a", "b", "c", "d"][i % 4]), f.clone());
    }
    for t in case {
        if t.lines().any(|l| l.starts_with("if") || l.starts_with("endif") || l.contains("{") && !l.starts_with("include::")) || t.contains('\t') {
            return Out::Skip;
        }
    }
    let pname = if primary.is_empty() { None } else { Some(primary.as_str()) };
    let mut m = M { files: &map, attrs: HashMap::new(), in_text: false, unsure: false, out: vec![], depth: 0, simple: true, includes: 0 };
    m.file(src, pname);
    if !m.simple || m.out.len() > 400 {
        return Out::Skip;
    }
    let mut p = Parser::default().with_include_file_handler(Files(map.clone()));
    if let Some(n) = pname {
        p = p.with_primary_file_name(n);
    }
    let d = p.parse(src);
    let text = d.span().data().to_string();
    let want = m.out.iter().map(|(l, ..)| l.as_str()).collect::<Vec<_>>().join("\n");
    // Without directives and file name the source is used as it is.
    fail_if!(text.replace('\r', "").trim_end() != want.trim_end(), "preprocessed text is {text:?}, expected {want:?}");
    for (i, (l, f, n)) in m.out.iter().enumerate() {
        let got = d.source_map().original_file_and_line(i + 1);
        fail_if!(got != Some(SourceLine(f.clone(), *n)), "line {} ({l:?}) traces to {got:?}, expected {f:?} line {n}", i + 1);
    }
    Out::Pass(m.includes > 0 && m.out.len() > 2)
}

fn gen_file(r: &mut Rng, depth: usize) -> String {
    let n = r.range(0, 7);
    let crlf = r.pct(8);
    let mut s = String::new();
    for _ in 0..n {
        let l = match r.below(12) {
            0 | 1 => String::new(),
            2 => format!(":{}: {}", r.pick(&["x", "y"]), r.pick(&["a", "b", "c", "q"])),
            3 if r.pct(40) => format!(":{}: v \\\n  more", r.pick(&["x", "z"])),
            3 if r.pct(30) => ":z: v \\\n".into(),
            4..=7 if depth < 4 => {
                let t = r.pick(&["a", "b", "c", "d", "missing", "{x}", "{y}", "{nope}", "z{x}"]);
                format!("include::{t}.adoc[]")
            }
            8 => "== Section".into(),
            9 => "word ".into(),
            _ => r.pick(&["word", "two words", "* item", "----", "// c", "héé"]).to_string(),
        };
        s.push_str(&l);
        s.push_str(if crlf { "\r\n" } else { "\n" });
    }
    if r.pct(30) && s.ends_with('\n') {
        s.pop();
    }
    s
}

fn random_case(r: &mut Rng) -> Vec<String> {
    let mut v = vec![r.pick(&["", "", "main.adoc"]).to_string()];
    let n = r.range(0, 4);
    v.push(gen_file(r, 0));
    // File k may only include later files: no cycles.
    for k in 0..n {
        let names = ["a", "b", "c", "d"];
        let mut f = gen_file(r, 1);
        for (j, nm) in names.iter().enumerate() {
            if j <= k {
                f = f.replace(&format!("include::{nm}.adoc[]"), "plain");
            }
        }
        f = f.replace("include::{", "include::q{");
        v.push(f);
    }
    v
}

const TOK: &[&str] = &["w", "", "include::a.adoc[]", "include::b.adoc[]", "include::no.adoc[]", ":x: a", "include::{x}.adoc[]", "== s", ":z: a \\\nb"];

fn ex_case(i: u64, _t: bool) -> Vec<String> {
    vec![
        if i % 2 == 0 { "" } else { "main.adoc" }.into(),
        seq_nth(TOK, 4, i).join("\n"),
        ["one", "one\ntwo\n", "include::b.adoc[]\n", "1\ninclude::b.adoc[]\n2\n", ""][(i / 2 % 5) as usize].into(),
        ["b1", "b1\n\nb2\n", ""][(i / 10 % 3) as usize].into(),
    ]
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "include trees without cycles: every main file of up to 4 of 9 line tokens over 15 pairs of included files, then seeded random trees; preprocessed text and the origin of every output line compared with a reference preprocessor; non-trivial = at least one include and three output lines",
        exhaustive: |_| seq_count(TOK.len(), 4),
        exhaustive_case: ex_case,
        random: (800_000, 50_000_000),
        random_case,
        check,
    }
}
