//! Generators of AsciiDoc text.
use crate::rng::Rng;

pub const INLINE: &[&str] = &[
    "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "[.r]", "[#i]", "[.r#i]", "[x]", "{sp}", "{foo}", "{bar}", "\\{foo}", "{", "}",
    "<<", ">>", "<<x>>", "<<x,y>>", "http://a.b", "https://x.org[t]", "https://x.org[t,role=r]", "<http://a.b>", "link:x[y]", "link:x[y^]",
    "link:++a b++[c]", "mailto:a@b[c]", "mailto:a@b[c,d,e]", "image:x.png[]", "image:x y.png[a,b,c,link=l]", "image:", "icon:h[]", "icon:h[2x,role=r]",
    "[[id]]", "[[id,t]]", "anchor:x[]", "anchor:x[t]", "+", "++", "+++", "pass:[", "pass:q[", "pass:c,a[", "]", "[", "$$", "(C)", "(R)", "(TM)",
    "--", " -- ", "...", "'", "\"`", "`\"", "'`", "`'", "->", "=>", "<-", "<=", "&", "&amp;", "&#167;", "<", ">", " +\n", " +", "kbd:[a]",
    "footnote:[x]", "\\", " ", " ", " ", "a", "bc", "word", "Two words", "é", "🙌", "\u{a0}", "\u{2003}", "\u{200b}", "\u{feff}", "stem:[x]",
    "latexmath:[y]", "indexterm:[a]", "((x))", "(((x,y)))", "xref:x[]", "menu:x[y]", "btn:[x]", "//c", "a@b.co", "?", "!", ",", ";", ":", "::", "|",
    "\"", "=", "%", ".", "-", "/", "@", "1", "23", "X", "\t", "“", "’", "ß", "İ", "\u{301}", "(", ")", "ftp://q", "irc://z[w]", "xyz:", "\\http://e.f",
    "\\*", "\\**", "\\_", "\\`", "\\(C)", "\\[[z]]", "\\image:p[]", "\\link:l[m]", "\\+", "\\+++", "\\pass:[", "\\$$", "[opts=inline]", "svg",
    "image:a.svg[opts=inline]", "image:a.svg[opts=interactive,fallback=b]",
];

pub const LINES: &[&str] = &[
    "", "", "", "= Title", "== Sect", "=== Sub", "==== Deep", "===== Deeper", "====== Deepest", "======= Seven", "# Md", "## Md two", "### Md three",
    "----", "-----", "....", "++++", "////", "--", "====", "=====", "****", "____", "_____", "```", "---", "- - -", "'''", "***", "* * *", "<<<",
    ".Title line", "..x", ". item", "* item", "- item", "1. item", "term:: def", "[source]", "[literal]", "[listing]", "[normal]", "[pass]", "[discrete]",
    "[float]", "[appendix]", "[quote,Author,Source]", "[verse]", "[#id]", "[#id.role%opt]", "[.role]", "[%opt]", "[subs=quotes]", "[subs=\"+a,-c\"]",
    "[subs=none]", "[[anchor]]", "[[anchor,ref text]]", "[[]]", "[[bad id]]", "[]", "[ x]", "[[x]", "[role=a b,options=\"c,d\"]", "[a='b *c* d']",
    "[id=x,reftext=y]", ":foo: bar", ":foo:", ":!foo:", ":foo!:", ":foo: a \\", ":foo: a + \\", ":sectnums:", ":sectnums!:", ":sectnumlevels: 2", ":idprefix:",
    ":idseparator: -", ":sectids!:", ":author: A B C", ":email: x@y", ":imagesdir: img", ":icons: font", ":hardbreaks:", "Kismet R. Lee <k@l.m>",
    "A; B C; D E F <g>", "v1.0, 2020-01-01: first", "v1.0", "1.0,", "2020", "// comment", "//// ", "///", "//", "/// x", "+", "image::x.png[]",
    "image::x y.png[alt,10,20,link=z]", "video::v.mp4[]", "audio::a.mp3[]", "image::[]", "image::x", "image::x[", "video::v[opts=\"a,b\"]", " indented",
    "  more", "\tTabbed", " .x", " ----", "include::a.adoc[]", "include::b.adoc[tag=x]", "include::{foo}.adoc[]", "\\include::a.adoc[]", "ifdef::foo[]", "endif::[]",
    "ifdef::foo[text]", "|===", "a::b[]", "toc::[]", "---- ", "==== \t", "== ", "==", "=", "==x", "word", "plain text here", "(C) 2020 {foo}", "\u{a0}", "\u{2003}x",
    "\u{85}", "\u{2028}", "\u{feff}= T", "x +", "{foo}", "{empty}", "[{foo}]", ".{foo}", "[[{foo}]]", "'''x", "<<<<", "*bold*", "_it_", "`mono`",
];

pub fn inline(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(r.pick(INLINE));
    }
    s
}

/// Attributes that the parser itself reads, and values for them.
const READ: &[&str] = &[
    "author", "authorinitials", "doctitle", "email", "firstname", "lastname", "middlename", "hardbreaks", "hardbreaks-option", "hide-uri-scheme", "icons", "iconsdir", "imagesdir", "icontype",
    "idprefix", "idseparator", "revdate", "revnumber", "revremark", "sectids", "sectnumlevels", "sectnums", "partnums", "attribute-missing", "foo", "data-uri",
];
const VALUE: &[&str] = &["", "", " é", " \u{2014}x", " -", " .", " _", " 0", " 1", " 9", " 99999999999999999999999", " -1", " a/b", " /", " ..", " http://x.y", " font", " svg", " {foo}", " É-", " \u{1F64C}", " x y"];

pub fn entry(r: &mut Rng) -> String {
    format!(":{}{}", r.pick(READ), if r.pct(10) { "!:".to_string() } else { format!(":{}", r.pick(VALUE)) })
}

pub fn line(r: &mut Rng) -> String {
    let mut l = match r.below(11) {
        10 if r.pct(50) => entry(r),
        10 => format!("{} {}{}", r.pick(&["==", "===", "##", "."]), r.pick(&["-", ".", " -x", "É", "é.", "\u{1F64C} -", "<b>", "&lt;", "{foo}", "_"]), r.pick(&["", "x", " y", ".", "é -", "{foo}", "-"])),
        0..=5 => r.pick(LINES).to_string(),
        6 => inline(r, 6).replace('\n', " "),
        7 => format!("{} {}", r.pick(LINES), inline(r, 3)),
        8 => format!("{}{}", r.pick(&["== ", "=== ", ".", "[", "* ", " ", ":x: ", "[[", "// "]), inline(r, 4)),
        _ => format!("{} {}", r.pick(&["word", "x", "some text"]), r.pick(INLINE)),
    };
    if r.pct(6) {
        l.push_str(r.pick(&[" ", "  ", "\t", "\r", "\u{a0}", " \\", " +"]));
    }
    l
}

pub fn doc(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = match r.below(10) {
        0..=3 => r.range(1, 4),
        4..=7 => r.range(3, 10),
        _ => r.range(8, 30),
    };
    let crlf = r.pct(8);
    for _ in 0..if r.pct(20) { r.range(1, 4) } else { 0 } {
        s.push_str(&entry(r));
        s.push('\n');
    }
    if r.pct(25) {
        s.push_str("= Doc Title\n");
        if r.pct(40) {
            s.push_str(r.pick(&["Ann Lee\n", "A B <c@d>\n", "X; Y Z\n"]));
            if r.pct(50) {
                s.push_str(r.pick(&["v1, 2020\n", "v2.1: rem\n", "1.0, d: r\n"]));
            }
        }
    }
    for _ in 0..n {
        s.push_str(&line(r));
        s.push_str(if crlf || r.pct(1) { "\r\n" } else { "\n" });
    }
    if r.pct(40) {
        s.pop();
    }
    if r.pct(4) {
        // Splice in raw characters.
        let k = r.range(1, 4);
        for _ in 0..k {
            let at = r.below(s.len() + 1);
            if s.is_char_boundary(at) {
                s.insert_str(at, r.pick(&["\0", "\u{7f}", "\u{fffd}", "[", "]", "\n", "\r", "\\", "`", "é", "🙌", "+", "=", " "]));
            }
        }
    }
    s
}
