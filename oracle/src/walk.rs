//! Independent walkers over a parsed document.
use asciidoc_parser::{
    Document, HasSpan, Span,
    blocks::{Block, IsBlock},
};

/// Every span reachable from the public API, with a label.
pub fn all_spans<'a>(doc: &'a Document<'a>) -> Vec<(String, Span<'a>)> {
    let mut v: Vec<(String, Span<'a>)> = vec![("document".into(), doc.span())];
    let h = doc.header();
    v.push(("header".into(), h.span()));
    if let Some(t) = h.title_source() {
        v.push(("header.title_source".into(), t));
    }
    for (i, a) in h.attributes().enumerate() {
        attribute(&format!("header.attr{i}"), a, &mut v);
    }
    for (i, c) in h.comments().enumerate() {
        v.push((format!("header.comment{i}"), *c));
    }
    if let Some(a) = h.author_line() {
        v.push(("author_line".into(), a.span()));
    }
    if let Some(r) = h.revision_line() {
        v.push(("revision_line".into(), r.span()));
    }
    for (i, w) in doc.warnings().enumerate() {
        v.push((format!("warning{i}:{:?}", w.warning), w.source));
    }
    for (i, b) in doc.nested_blocks().enumerate() {
        block(&format!("b{i}"), b, &mut v);
    }
    v
}

fn attribute<'a>(p: &str, a: &'a asciidoc_parser::document::Attribute<'a>, v: &mut Vec<(String, Span<'a>)>) {
    v.push((format!("{p}.span"), a.span()));
    v.push((format!("{p}.name"), *a.name()));
    if let Some(r) = a.raw_value() {
        v.push((format!("{p}.raw_value"), r));
    }
}

fn block<'a>(p: &str, b: &'a Block<'a>, v: &mut Vec<(String, Span<'a>)>) {
    let p = format!("{p}:{}", b.raw_context().as_ref());
    v.push((format!("{p}.span"), b.span()));
    if let Some(s) = b.title_source() {
        v.push((format!("{p}.title_source"), s));
    }
    if let Some(s) = b.anchor() {
        v.push((format!("{p}.anchor"), s));
    }
    if let Some(s) = b.anchor_reftext() {
        v.push((format!("{p}.anchor_reftext"), s));
    }
    if let Some(s) = b.attrlist() {
        v.push((format!("{p}.attrlist"), s.span()));
    }
    match b {
        Block::Simple(s) => v.push((format!("{p}.content"), s.content().original())),
        Block::RawDelimited(s) => v.push((format!("{p}.content"), s.content().original())),
        Block::Media(m) => {
            if let Some(t) = m.target() {
                v.push((format!("{p}.target"), *t));
            }
            v.push((format!("{p}.macro_attrlist"), m.macro_attrlist().span()));
        }
        Block::Section(s) => v.push((format!("{p}.section_title_source"), s.section_title_source())),
        Block::DocumentAttribute(a) => attribute(&p, a, v),
        _ => {}
    }
    for (i, c) in b.nested_blocks().enumerate() {
        block(&format!("{p}/{i}"), c, v);
    }
}

/// All blocks in document order (parents first).
pub fn all_blocks<'a>(doc: &'a Document<'a>) -> Vec<&'a Block<'a>> {
    fn rec<'a>(b: &'a Block<'a>, v: &mut Vec<&'a Block<'a>>) {
        v.push(b);
        for c in b.nested_blocks() {
            rec(c, v);
        }
    }
    let mut v = vec![];
    for b in doc.nested_blocks() {
        rec(b, &mut v);
    }
    v
}

/// Touch every accessor (they must all be total).
pub fn touch(doc: &Document<'_>) -> usize {
    let mut n = 0;
    for b in all_blocks(doc) {
        n += b.id().map_or(0, str::len);
        n += b.roles().len() + b.options().len() + b.has_option("x") as usize;
        n += b.resolved_context().len() + b.raw_context().len();
        n += b.declared_style().map_or(0, str::len);
        n += b.rendered_content().map_or(0, str::len);
        n += b.title().map_or(0, str::len);
        let _ = b.content_model();
        let _ = b.substitution_group();
        let mut lists = vec![];
        if let Some(a) = b.attrlist() {
            lists.push(a);
        }
        if let Block::Media(m) = b {
            lists.push(m.macro_attrlist());
        }
        for a in lists {
            n += a.roles().len() + a.options().len() + a.id().map_or(0, str::len);
            n += a.block_style().map_or(0, str::len);
            for e in a.attributes() {
                n += e.shorthand_items().len() + e.roles().len() + e.options().len();
                n += e.id().map_or(0, str::len) + e.block_style().map_or(0, str::len) + e.value().len();
                n += e.name().map_or(0, str::len);
            }
        }
        if let Block::Section(s) = b {
            n += s.section_title().len() + s.level();
            if let Some(sn) = s.section_number() {
                n += sn.to_string().len() + sn.components().len();
            }
        }
    }
    let h = doc.header();
    if let Some(a) = h.author_line() {
        for a in a.authors() {
            n += a.name().len() + a.firstname().len() + a.initials().len();
            n += a.middlename().map_or(0, str::len) + a.lastname().map_or(0, str::len) + a.email().map_or(0, str::len);
        }
    }
    if let Some(r) = h.revision_line() {
        n += r.revdate().len() + r.revnumber().map_or(0, str::len) + r.revremark().map_or(0, str::len);
    }
    for w in doc.warnings() {
        n += w.source.data().len();
    }
    n += doc.source_map().original_file_and_line(1).is_some() as usize;
    n
}
