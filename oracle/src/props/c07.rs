//! The catalog: unique IDs, everything registered, duplicates reported.
use std::collections::{HashMap, HashSet};

use asciidoc_parser::{
    Parser,
    blocks::{Block, IsBlock},
    document::RefType,
};

use super::c02::has_directive;
use crate::{common::*, fail_if, genr, rng::Rng};

/// Children first: the order in which blocks end.
fn post<'a>(b: &'a Block<'a>, v: &mut Vec<&'a Block<'a>>) {
    for k in b.nested_blocks() {
        post(k, v);
    }
    v.push(b);
}

/// Reference ID for a plain-word title.
fn base_id(title: &str, prefix: &str, sep: &str) -> Option<String> {
    if !title.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') || title.is_empty() {
        return None;
    }
    let s: String = sep.chars().take(1).collect();
    let words: Vec<String> = title.split(' ').map(|w| w.to_lowercase()).collect();
    if s.is_empty() {
        return Some(format!("{prefix}{}", words.concat()));
    }
    if words.iter().any(|w| w.is_empty()) || !s.chars().all(|c| matches!(c, '_' | '-' | '.' | ':')) {
        return None;
    }
    Some(format!("{prefix}{}", words.join(&s)))
}

fn check(case: &[String]) -> Out {
    let Some(src) = case.first() else { return Out::Skip };
    if has_directive(src) {
        return Out::Skip;
    }
    let d = Parser::default().parse(src);
    let mut blocks = vec![];
    for b in d.nested_blocks() {
        post(b, &mut blocks);
    }
    // idprefix / idseparator: only modelled when constant over the body.
    let (mut prefix, mut sep) = (Some("_".to_string()), Some("_".to_string()));
    for a in d.header().attributes() {
        let v = match a.value() {
            asciidoc_parser::document::InterpretedValue::Value(v) => Some(v.clone()),
            _ => None,
        };
        match a.name().data() {
            "idprefix" => prefix = v,
            "idseparator" => sep = v,
            _ => {}
        }
    }
    for b in &blocks {
        if let Block::DocumentAttribute(a) = b
            && a.name().data().to_lowercase().starts_with("id")
        {
            prefix = None;
        }
    }

    let cat = d.catalog();
    let mut reg: HashMap<String, (Option<String>, RefType)> = HashMap::new();
    let mut texts: HashMap<String, String> = HashMap::new();
    let mut dups: HashMap<String, usize> = HashMap::new();
    let mut autos: HashSet<String> = HashSet::new();
    for b in &blocks {
        // A section's own accessor also knows the generated ID.
        let id = if let Block::Section(s) = b { s.id() } else { b.id() };
        let Some(id) = id else { continue };
        let explicit = b.anchor().is_some() || b.attrlist().and_then(|a| a.id()).is_some();
        let (reftext, ty) = match b {
            Block::Section(s) => (Some(b.attrlist().and_then(|a| a.named_attribute("reftext")).map(|a| a.value().to_string()).unwrap_or(s.section_title().to_string())), RefType::Section),
            _ => (b.title().map(|t| t.to_string()), RefType::Anchor),
        };
        if !explicit {
            fail_if!(reg.contains_key(id), "generated ID {id:?} was already taken");
            autos.insert(id.to_string());
            if let (Block::Section(s), Some(p), Some(sp)) = (b, &prefix, &sep)
                && let Some(base) = base_id(s.section_title(), p, sp)
                && !s.section_title().contains("  ")
            {
                let mut want = base.clone();
                let mut n = 2;
                while reg.contains_key(&want) {
                    want = format!("{base}-{n}");
                    n += 1;
                }
                fail_if!(want != id, "section {:?} got ID {id:?}, expected {want:?}", s.section_title());
            }
        } else if reg.contains_key(id) {
            *dups.entry(id.to_string()).or_default() += 1;
            continue;
        }
        if let Some(t) = &reftext {
            texts.entry(t.clone()).or_insert(id.to_string());
        }
        reg.insert(id.to_string(), (reftext, ty));
    }
    for (id, (t, ty)) in &reg {
        let Some(e) = cat.get_ref(id) else { return Out::Fail(format!("ID {id:?} is not in the catalog")) };
        fail_if!(!cat.contains_id(id), "contains_id({id:?}) is false");
        fail_if!(&e.id != id, "entry of {id:?} says {:?}", e.id);
        fail_if!(&e.reftext != t, "entry of {id:?} has reference text {:?}, expected {t:?}", e.reftext);
        fail_if!(&e.ref_type != ty, "entry of {id:?} has type {:?}, expected {ty:?}", e.ref_type);
    }
    fail_if!(cat.len() != reg.len(), "catalog has {} entries, {} IDs are in use", cat.len(), reg.len());
    fail_if!(cat.is_empty() != reg.is_empty(), "is_empty() disagrees");
    fail_if!(cat.contains_id("no such id at all"), "unknown ID found");
    for (t, id) in &texts {
        fail_if!(cat.resolve_id(t).as_ref() != Some(id), "reference text {t:?} resolves to {:?}, expected {id:?}", cat.resolve_id(t));
    }
    fail_if!(cat.resolve_id("no such text at all").is_some(), "unknown reference text resolved");
    let mut got: HashMap<String, usize> = HashMap::new();
    for w in d.warnings() {
        let t = format!("{:?}", w.warning);
        if let Some(r) = t.strip_prefix("WarningType::DuplicateId(") {
            let s: String = serde_json::from_str(r.trim_end_matches(')')).unwrap_or_else(|_| r.trim_end_matches(')').trim_matches('"').to_string());
            *got.entry(s).or_default() += 1;
        }
    }
    fail_if!(got != dups, "duplicate-ID warnings {got:?}, expected {dups:?}");
    Out::Pass(reg.len() > 1)
}

const TOK: &[&str] = &[
    "== A", "=== A", "== A b", "== B", "[[x]]\n== A", "[#x]\n=== C", "[#_a]\npara", "[[_a]]\npara", "[id=x]\npara", ".A\n[#y]\npara", "[[x]]\n----\na\n----",
    "[#x]\n====\n[#x]\npara\n====", "[[x,r]]\nimage::i[]", "[[x]]\n'''", "[[x]]\n[#z]\n== D", "[discrete]\n== A", "[reftext=R]\n== A", "[[_a-2]]\n== A", ".T\n[#z]\n****\np\n****", "[[x]]", "[[b d]]\npara",
];

fn ex_case(i: u64, t: bool) -> Vec<String> {
    vec![seq_nth(TOK, if t { 4 } else { 3 }, i).join("\n\n")]
}

fn random_case(r: &mut Rng) -> Vec<String> {
    if r.pct(25) {
        return vec![genr::doc(r)];
    }
    let mut g: Vec<String> = vec![];
    if r.pct(50) {
        let mut h = vec!["= D".to_string()];
        if r.pct(40) {
            h.push(format!(":idprefix: {}", r.pick(&["id-", "", "x", "_"])).trim_end().to_string());
        }
        if r.pct(40) {
            h.push(format!(":idseparator: {}", r.pick(&["-", "", "_", ".", "--"])).trim_end().to_string());
        }
        if r.pct(10) {
            h.push(":!sectids:".into());
        }
        g.push(h.join("\n"));
    }
    for _ in 0..r.range(1, 14) {
        match r.below(5) {
            0..=2 => g.push(r.pick(TOK).to_string()),
            3 => g.push(format!("{} {}", "=".repeat(r.range(2, 5)), r.pick(&["A", "A b", "a B c", "It's *x* & y", "A - b", "A.b", "Ünï", "\\*a", "-a-", "a <b>"]))),
            _ => g.push(format!("[#{}]\n{}", r.pick(&["x", "y", "_a", "_a-2", "_a-3", "_b", "a"]), r.pick(&["para", "== B", "=== A", "....\nl\n...."]))),
        }
    }
    vec![g.join("\n\n")]
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "documents of sections, blocks, explicit and duplicate IDs: every sequence of up to 3 (thorough 4) of 21 tokens, then seeded random ones and general documents; catalog compared with a reference registry; non-trivial = two or more IDs",
        exhaustive: |t| seq_count(TOK.len(), if t { 4 } else { 3 }),
        exhaustive_case: ex_case,
        random: (600_000, 50_000_000),
        random_case,
        check,
    }
}
