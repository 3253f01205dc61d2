//! Printing token streams with raw (Verus) text spliced in.
use proc_macro2::{Delimiter, TokenStream, TokenTree};

/// Print `ts`; an identifier `__VP_<n>__` is replaced by `raw[n]`.
pub fn print(ts: TokenStream, raw: &[String]) -> String {
    let mut o = String::new();
    go(ts, raw, &mut o);
    o
}

fn go(ts: TokenStream, raw: &[String], o: &mut String) {
    let mut joint = false;
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                go(g.stream(), raw, o);
                if g.delimiter() == Delimiter::Brace && !o.ends_with('\n') {
                    o.push('\n');
                }
                o.push_str(b);
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if let Some(n) = s.strip_prefix("__VP_").and_then(|r| r.strip_suffix("__")).and_then(|r| r.parse::<usize>().ok()) {
                    o.push('\n');
                    o.push_str(&raw[n]);
                    o.push('\n');
                } else {
                    if !joint || needs_space(o) {
                        sp(o);
                    }
                    o.push_str(&s);
                }
                joint = false;
                continue;
            }
            TokenTree::Literal(l) => {
                sp(o);
                o.push_str(&l.to_string());
            }
            TokenTree::Punct(p) => {
                if !joint && !matches!(p.as_char(), ';' | ',' | '.' | '?') {
                    sp(o);
                }
                o.push(p.as_char());
                joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == '\'' {
                    joint = true;
                }
                if p.as_char() == ';' {
                    o.push('\n');
                }
                continue;
            }
        }
        joint = false;
    }
}

fn needs_space(o: &str) -> bool {
    o.chars().last().map(|c| c.is_alphanumeric() || c == '_') == Some(true)
}

fn sp(o: &mut String) {
    if !o.is_empty() && !o.ends_with([' ', '\n', '(', '.', '[']) {
        o.push(' ');
    }
}
