//! The mechanical rewrites applied to extracted functions. Every rewrite that
//! is applied is logged.
use std::collections::{BTreeMap, BTreeSet};

use quote::{quote, ToTokens};
use syn::{
    visit_mut::{self, VisitMut},
    Expr,
};

use crate::unit::Cfg;

#[derive(Default)]
pub struct FnSpec {
    pub sections: BTreeMap<String, String>,
    pub external: bool,
}

pub struct Ctx<'a> {
    spec: &'a FnSpec,
    cfg: &'a Cfg,
    pub raw: Vec<String>,
    pub log: BTreeSet<String>,
    pub loops: usize,
    pub closures: usize,
    pub calls: BTreeSet<String>,
    depth: usize,
    lits: BTreeSet<String>,
}

/// `crate::a::b::Name` → `Name`, `crate::a::f` → `f`.
pub struct PathFix<'a> {
    pub cfg: &'a Cfg,
}

fn fix_path(cfg: &Cfg, p: &mut syn::Path) {
    let s = p.to_token_stream().to_string().replace(' ', "");
    let base = s.split('<').next().unwrap_or("").to_string();
    if let Some(n) = cfg.paths.get(&base) {
        let args = p.segments.last().map(|s| s.arguments.clone()).unwrap_or_default();
        let mut q: syn::Path = syn::parse_str(n).unwrap();
        if matches!(q.segments.last().unwrap().arguments, syn::PathArguments::None) && !n.ends_with('!') {
            q.segments.last_mut().unwrap().arguments = args;
        }
        *p = q;
        return;
    }
    let first = p.segments[0].ident.to_string();
    if first == "crate" || first == "super" {
        let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
        let mut k = 0;
        while k + 1 < segs.len() {
            let id = segs[k].ident.to_string();
            if id.chars().next().map(|c| c.is_lowercase()) == Some(true) {
                k += 1;
            } else {
                break;
            }
        }
        p.segments = segs[k..].iter().cloned().collect();
        p.leading_colon = None;
    }
}

impl VisitMut for PathFix<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(self.cfg, p);
    }
}

pub fn fix_type(cfg: &Cfg, t: &mut syn::Type) {
    PathFix { cfg }.visit_type_mut(t);
}

impl<'a> Ctx<'a> {
    pub fn new(spec: &'a FnSpec, cfg: &'a Cfg) -> Self {
        Ctx { spec, cfg, raw: vec![], log: BTreeSet::new(), loops: 0, closures: 0, calls: BTreeSet::new(), depth: 0, lits: BTreeSet::new() }
    }

    fn sec(&self, k: &str) -> String {
        self.spec.sections.get(k).cloned().unwrap_or_default()
    }

    fn mark(&mut self, text: String) -> syn::Ident {
        self.raw.push(text);
        syn::parse_str(&format!("__VP_{}__", self.raw.len() - 1)).unwrap()
    }

    fn exit_wrap(&mut self, e: &Expr) -> Option<Expr> {
        let p = self.sec("exit");
        if p.trim().is_empty() {
            return None;
        }
        let m = self.mark(format!("proof {{ {p} }}"));
        Some(Expr::Verbatim(quote!({ let __vp_r = #e; #m __vp_r })))
    }
}

pub fn function(ctx: &mut Ctx, sig: &mut syn::Signature, block: &mut syn::Block) {
    PathFix { cfg: ctx.cfg }.visit_signature_mut(sig);
    if ctx.spec.external {
        return;
    }
    if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            struct S;
            impl VisitMut for S {
                fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
                    if i == "self" {
                        *i = syn::Ident::new("__self", i.span());
                    }
                }
                fn visit_item_mut(&mut self, _: &mut syn::Item) {}
            }
            S.visit_block_mut(block);
            block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
            ctx.log.insert("fn f(mut self) {B} -> fn f(self) { let mut s = self; B[s/self] }".into());
        }
    }
    let index: Vec<String> = ctx.sec("index").split(',').map(|x| x.trim().to_string()).collect();
    let mut pre = Pre { log: BTreeSet::new(), eqs: ctx.spec.sections.contains_key("eqs"), opts: ctx.spec.sections.contains_key("opts"), index };
    pre.visit_block_mut(block);
    ctx.log.append(&mut pre.log);
    ctx.visit_block_mut(block);
    // Tail expression.
    if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last_mut() {
        let e2 = e.clone();
        if let Some(w) = ctx.exit_wrap(&e2) {
            *e = w;
        }
    } else if !ctx.sec("exit").trim().is_empty() && matches!(sig.output, syn::ReturnType::Default) {
        let p = ctx.sec("exit");
        let m = ctx.mark(format!("proof {{ {p} }}"));
        block.stmts.push(syn::Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
    }
    let mut start = ctx.sec("start");
    if ctx.spec.sections.contains_key("nolits") {
        ctx.lits.clear();
    }
    for l in &ctx.lits {
        // What the string literals are.
        let chars: Vec<String> = l.chars().map(|c| format!("{c:?}")).collect();
        let lit = format!("{l:?}");
        let mut p = format!("reveal_strlit({lit}); assert({lit}@ =~= seq![{}]); ", chars.join(", "));
        if l.is_ascii() {
            let bytes: Vec<String> = l.bytes().map(|c| format!("{c}u8")).collect();
            p.push_str(&format!("lemma_lit({lit}); assert({lit}.spec_bytes() =~= seq![{}]);", bytes.join(", ")));
        }
        if l.is_empty() {
            p = format!("reveal_strlit({lit}); assert({lit}@ =~= Seq::<char>::empty()); lemma_lit({lit}); assert({lit}.spec_bytes() =~= Seq::<u8>::empty());");
        }
        start = format!("proof {{ {p} }}\n{start}");
    }
    if !start.trim().is_empty() {
        let m = ctx.mark(start);
        block.stmts.insert(0, syn::Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
    }
}

fn is_boolish(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) => matches!(
            b.op,
            syn::BinOp::And(_) | syn::BinOp::Or(_) | syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_) | syn::BinOp::Gt(_) | syn::BinOp::Ge(_)
        ),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && is_boolish(&u.expr),
        Expr::Paren(p) => is_boolish(&p.expr),
        Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
        _ => false,
    }
}

fn is_pure(e: &Expr) -> bool {
    match e {
        Expr::Binary(b) => is_pure(&b.left) && is_pure(&b.right),
        Expr::Unary(u) => is_pure(&u.expr),
        Expr::Paren(p) => is_pure(&p.expr),
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => is_pure(&f.base),
        _ => false,
    }
}

fn find_text(s: &syn::Stmt) -> String {
    s.to_token_stream().to_string().replace(' ', "")
}

impl VisitMut for Ctx<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(self.cfg, p);
    }

    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.depth += 1;
        // `use crate::a::B;` in a body: the extracted text has one flat name space.
        fn plain(t: &syn::UseTree) -> bool {
            match t {
                syn::UseTree::Path(p) => plain(&p.tree),
                syn::UseTree::Name(_) => true,
                _ => false,
            }
        }
        let before = b.stmts.len();
        // A local constant that refers to something is a local variable (its value is promoted).
        for s in &mut b.stmts {
            if let syn::Stmt::Item(syn::Item::Const(c)) = s {
                if let syn::Type::Reference(r) = &*c.ty {
                    if r.lifetime.is_none() {
                        let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                        *s = syn::parse_quote! { let #n: #t = #e; };
                    }
                }
            }
        }
        b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Use(u)) if matches!(&u.tree, syn::UseTree::Path(p) if p.ident == "crate") && plain(&u.tree)));
        if b.stmts.len() < before {
            self.log.insert("use crate::M::T; in a body -> (left out: names are flat)".into());
        }
        // Proof text anchored at statements: `before TEXT` / `after TEXT`.
        let anchors: Vec<(bool, String, String)> = self
            .spec
            .sections
            .iter()
            .filter_map(|(k, v)| {
                let (w, t) = k.split_once(' ')?;
                match w {
                    "before" => Some((true, t.replace(' ', ""), v.clone())),
                    "after" => Some((false, t.replace(' ', ""), v.clone())),
                    _ => None,
                }
            })
            .collect();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let txt = if anchors.is_empty() { String::new() } else { find_text(&s) };
            // The anchor belongs to the innermost statement that contains the text.
            let mut inner = vec![false; anchors.len()];
            if !anchors.is_empty() {
                struct Has<'a>(&'a [(bool, String, String)], Vec<bool>);
                impl VisitMut for Has<'_> {
                    fn visit_block_mut(&mut self, b: &mut syn::Block) {
                        for s in &b.stmts {
                            let t = find_text(s);
                            for (a, i) in self.0.iter().zip(self.1.iter_mut()) {
                                *i |= t.contains(&a.1);
                            }
                        }
                    }
                }
                let mut h = Has(&anchors, inner);
                h.visit_stmt_mut(&mut s.clone());
                inner = h.1;
            }
            let here = |before: bool| anchors.iter().zip(&inner).filter(|(a, i)| a.0 == before && !**i && txt.contains(&a.1)).map(|(a, _)| a.2.clone()).collect::<Vec<_>>();
            if let syn::Stmt::Macro(m) = &s {
                // Statement macros become expressions so that they are rewritten alike.
                let mac = m.mac.clone();
                let semi = m.semi_token;
                let diverges = ["panic", "todo", "unreachable", "unimplemented"].iter().any(|n| mac.path.is_ident(n));
                let x = Expr::Macro(syn::ExprMacro { attrs: vec![], mac });
                s = syn::Stmt::Expr(if diverges && semi.is_some() { syn::parse_quote!(return #x) } else { x }, semi);
            }
            self.visit_stmt_mut(&mut s);
            for t in here(true) {
                let m = self.mark(t);
                out.push(syn::Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
            }
            out.push(s);
            for t in here(false) {
                let m = self.mark(t);
                out.push(syn::Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
            }
        }
        b.stmts = out;
        self.depth -= 1;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let n = self.loops;
                self.loops += 1;
                let spec = self.sec(&format!("loop {n}"));
                let start = self.sec(&format!("loop {n} start"));
                let end = self.sec(&format!("loop {n} end"));
                let iter = self.sec(&format!("loop {n} iter"));
                visit_mut::visit_expr_mut(self, e);
                let wrap = |ctx: &mut Self, b: &syn::Block| {
                    let st = &b.stmts;
                    let s = if start.trim().is_empty() { quote!() } else { let m = ctx.mark(start.clone()); quote!(#m) };
                    let en = if end.trim().is_empty() { quote!() } else { let m = ctx.mark(end.clone()); quote!(#m) };
                    // A trailing unit expression needs a semicolon before proof text.
                    let sep = match st.last() {
                        Some(syn::Stmt::Expr(_, None)) if !en.is_empty() => quote!(;),
                        _ => quote!(),
                    };
                    quote!({ #s #(#st)* #sep #en })
                };
                let new = match e {
                    Expr::ForLoop(f) => {
                        let (label, pat, ex) = (&f.label, &f.pat, &f.expr);
                        let body = wrap(self, &f.body);
                        if matches!(**ex, Expr::Range(_)) && iter.is_empty() {
                            let m = self.mark(spec);
                            quote!(#label for #pat in #ex #m #body)
                        } else {
                            self.log.insert("for P in E {B} -> let mut it = vp_iter(E); loop { match it.next() { Some(P) => {B}, None => break } }".into());
                            let it: syn::Ident = syn::parse_str(&format!("__it{n}")).unwrap();
                            let exs = ex.to_token_stream();
                            let init: proc_macro2::TokenStream = if iter.trim().is_empty() {
                                quote!(vp_iter(#exs))
                            } else {
                                iter.replace("$e", &exs.to_string()).parse().unwrap()
                            };
                            let m = self.mark(spec);
                            let pre = self.sec(&format!("loop {n} pre"));
                            let pm = self.mark(pre);
                            let before = self.sec(&format!("loop {n} before"));
                            let bm = self.mark(before);
                            let exit = self.sec(&format!("loop {n} exit"));
                            let xm = self.mark(exit);
                            quote!({ let mut #it = #init; #pm #label loop #m { #bm match #it.next() { Some(#pat) => #body, None => { #xm break } } } })
                        }
                    }
                    Expr::While(w) => {
                        let (label, cond) = (&w.label, &w.cond);
                        let body = wrap(self, &w.body);
                        let m = self.mark(spec);
                        if let Expr::Let(l) = &**cond {
                            self.log.insert("while let P = E {B} -> loop { if let P = E {B} else { break } }".into());
                            let (p, ex) = (&l.pat, &l.expr);
                            quote!(#label loop #m { if let #p = #ex #body else { break } })
                        } else {
                            quote!(#label while #cond #m #body)
                        }
                    }
                    Expr::Loop(l) => {
                        let label = &l.label;
                        let body = wrap(self, &l.body);
                        let m = self.mark(spec);
                        quote!(#label loop #m #body)
                    }
                    _ => unreachable!(),
                };
                *e = Expr::Verbatim(new);
            }
            Expr::Closure(_) => {
                let n = self.closures;
                self.closures += 1;
                let text = self.sec(&format!("closure {n}"));
                visit_mut::visit_expr_mut(self, e);
                let Expr::Closure(c) = e else { return };
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    // |_| B -> |__u0| B
                    let u = syn::Ident::new(&format!("__u{k}"), proc_macro2::Span::call_site());
                    match p {
                        syn::Pat::Wild(_) => *p = syn::parse_quote!(#u),
                        syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Wild(_)) => *t.pat = syn::parse_quote!(#u),
                        _ => {}
                    }
                }
                let inputs = &c.inputs;
                let body = &c.body;
                let mv = &c.capture;
                if !text.trim().is_empty() {
                    let m = self.mark(text);
                    let b = match &**body {
                        Expr::Block(b) => quote!(#b),
                        b => quote!({ #b }),
                    };
                    // `params: NAMES` may rename the parameters.
                    let ps = self.sec(&format!("closure {n} params"));
                    let ins: proc_macro2::TokenStream = if ps.is_empty() { quote!(#inputs) } else { ps.parse().unwrap() };
                    let pre = self.sec(&format!("closure {n} bind"));
                    let pm = self.mark(pre);
                    self.log.insert("closures are given contracts".into());
                    *e = Expr::Verbatim(quote!(#mv |#ins| #m { #pm #b }));
                } else if is_boolish(body) && is_pure(body) {
                    self.log.insert("a closure whose body is a pure boolean expression B gets `ensures r == (B)`".into());
                    let m = self.mark(format!("-> (__r: bool) ensures __r == ({})", body.to_token_stream()));
                    *e = Expr::Verbatim(quote!(#mv |#inputs| #m { #body }));
                }
            }
            Expr::Return(_) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Return(r) = e else { return };
                if let Some(x) = &r.expr {
                    let x = (**x).clone();
                    if let Some(w) = self.exit_wrap(&x) {
                        r.expr = Some(Box::new(w));
                    }
                }
            }
            Expr::Try(_) if !self.sec("try").is_empty() => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Try(t) = e else { return };
                let x = &t.expr;
                self.log.insert("E? on an Option -> match E { Some(v) => v, None => return None }".into());
                *e = Expr::Verbatim(quote!((match #x { Some(__v) => __v, None => return None })));
            }
            Expr::MethodCall(_) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = e else { return };
                if let Expr::Index(ix) = &*m.receiver {
                    if matches!(&*ix.index, Expr::Range(_)) {
                        let mut x: Expr = { let ix = ix.clone(); syn::parse_quote!(&#ix) };
                        self.visit_expr_mut(&mut x);
                        m.receiver = Box::new(x);
                    }
                }
                let name = m.method.to_string();
                self.calls.insert(name.clone());
                let fnarg = m.args.first().map(|a| matches!(a, Expr::Closure(_)) || matches!(a, Expr::Verbatim(t) if t.to_string().trim_start().starts_with(['|','m']))) == Some(true);
                let key = if fnarg { format!("{name}|fn") } else { name.clone() };
                let local = self.sec(&format!("rename {name}"));
                let to = if !local.is_empty() {
                    Some(local)
                } else {
                    self.cfg.methods.get(&key).or_else(|| self.cfg.methods.get(&name).filter(|_| !fnarg)).cloned()
                };
                if let Some(to) = to {
                    if to != name {
                        self.log.insert(format!("std method .{name}(..) -> .{to}(..), which carries an assumed contract"));
                        m.method = syn::Ident::new(&to, m.method.span());
                    }
                }
            }
            Expr::Call(_) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Call(c) = e else { return };
                if let Expr::Path(p) = &*c.func {
                    self.calls.insert(p.path.segments.last().unwrap().ident.to_string());
                }
            }
            Expr::Reference(_) => {
                visit_mut::visit_expr_mut(self, e);
                let Expr::Reference(r) = e else { return };
                if let Expr::Index(ix) = &*r.expr {
                    let b = &ix.expr;
                    let rng: Option<&syn::ExprRange> = match &*ix.index {
                        Expr::Range(r) => Some(r),
                        Expr::Path(_) if !self.sec("range_params").is_empty() => None,
                        _ => return,
                    };
                    if r.mutability.is_some() {
                        return;
                    }
                    self.log.insert("&S[a..b] -> vp_slice(S, a, b) etc., which carry the contract of std slicing".into());
                    let one: proc_macro2::TokenStream = "1".parse().unwrap();
                    let new = match rng {
                        Some(r) => {
                            let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                            match (&r.start, &r.end) {
                                (Some(a), Some(z)) if incl => quote!((#b).vp_slice(#a, (#z) + #one)),
                                (None, Some(z)) if incl => quote!((#b).vp_slice_to((#z) + #one)),
                                (Some(a), Some(z)) => quote!((#b).vp_slice(#a, #z)),
                                (Some(a), None) => quote!((#b).vp_slice_from(#a)),
                                (None, Some(z)) => quote!((#b).vp_slice_to(#z)),
                                (None, None) => quote!((#b).vp_slice_from(0)),
                            }
                        }
                        None => {
                            let i = &ix.index;
                            quote!((#b).vp_slice_rng(#i))
                        }
                    };
                    *e = Expr::Verbatim(new);
                }
            }
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let toks = m.mac.tokens.clone();
                let parse_args = |t: proc_macro2::TokenStream| {
                    use syn::parse::Parser;
                    syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(t)
                };
                if let Some(to) = self.cfg.macros.get(&name) {
                    let to: syn::Path = syn::parse_str(to).unwrap();
                    self.log.insert(format!("macro {name}!(..) -> {}(..), which carries an assumed contract", to.to_token_stream()));
                    self.calls.insert(format!("{name}!"));
                    if let Ok(mut a) = parse_args(toks) {
                        for x in a.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        // Format strings are passed through; the remaining arguments follow.
                        *e = Expr::Verbatim(quote!(#to(#a)));
                    }
                    return;
                }
                match name.as_str() {
                    "assert" | "debug_assert" => {
                        if let Ok(mut a) = parse_args(toks) {
                            if let Some(c) = a.first_mut() {
                                self.visit_expr_mut(c);
                                self.log.insert("assert!(C) -> if !(C) { panic that must be unreachable }".into());
                                *e = Expr::Verbatim(quote!(if !(#c) { vp_unreachable() }));
                            }
                        }
                    }
                    "panic" | "unreachable" | "todo" | "unimplemented" => {
                        self.log.insert("panic!(..) -> a call that must be unreachable".into());
                        *e = Expr::Verbatim(quote!(vp_unreachable()));
                    }
                    "vec" => {
                        if let Ok(mut a) = parse_args(toks) {
                            for x in a.iter_mut() {
                                self.visit_expr_mut(x);
                            }
                            if a.is_empty() {
                                *e = Expr::Verbatim(quote!(Vec::new()));
                            } else {
                                *e = Expr::Verbatim(quote!(vec![#a]));
                            }
                        }
                    }
                    "format" => {
                        // format!("a{}b", x) -> vp_fmt_lit(vp_fmt(vp_fmt_lit(vp_fmt_new(), "a"), &x), "b")
                        let Ok(mut a) = parse_args(toks) else { return };
                        let mut it = a.iter_mut();
                        let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. })) = it.next() else { return };
                        let f = f.value();
                        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
                        let mut rest: Vec<&mut Expr> = vec![];
                        for x in it {
                            match x {
                                Expr::Assign(s) => {
                                    let mut v = (*s.right).clone();
                                    self.visit_expr_mut(&mut v);
                                    named.insert(s.left.to_token_stream().to_string(), v);
                                }
                                x => rest.push(x),
                            }
                        }
                        let mut it = rest.into_iter();
                        let mut acc = quote!(vp_fmt_new());
                        let mut lit = String::new();
                        let mut c = f.chars().peekable();
                        let flush = |ctx: &mut Self, acc: proc_macro2::TokenStream, lit: &mut String| {
                            if lit.is_empty() {
                                return acc;
                            }
                            ctx.lits.insert(lit.clone());
                            let l = std::mem::take(lit);
                            quote!(vp_fmt_lit(#acc, #l))
                        };
                        while let Some(x) = c.next() {
                            if x == '{' && c.peek() == Some(&'{') || x == '}' && c.peek() == Some(&'}') {
                                c.next();
                                lit.push(x);
                            } else if x == '{' {
                                let mut n = String::new();
                                for y in c.by_ref() {
                                    if y == '}' {
                                        break;
                                    }
                                    n.push(y);
                                }
                                let arg: Expr = if n.is_empty() {
                                    match it.next() {
                                        Some(x) => {
                                            self.visit_expr_mut(x);
                                            x.clone()
                                        }
                                        None => return,
                                    }
                                } else {
                                    if let Some(x) = named.get(&n) {
                                        acc = flush(self, acc, &mut lit);
                                        acc = quote!(vp_fmt(#acc, &(#x)));
                                        continue;
                                    }
                                    // Only plain names: anything else is left alone, which the verifier rejects.
                                    match syn::parse_str::<syn::Ident>(&n) {
                                        Ok(i) => syn::parse_quote!(#i),
                                        Err(_) => return,
                                    }
                                };
                                acc = flush(self, acc, &mut lit);
                                acc = quote!(vp_fmt(#acc, &(#arg)));
                            } else {
                                lit.push(x);
                            }
                        }
                        acc = flush(self, acc, &mut lit);
                        self.log.insert("format!(L, ..) -> the concatenation of its literal parts and of the texts that its arguments display as".into());
                        *e = Expr::Verbatim(acc);
                    }
                    "matches" => {
                        // matches!(E, P) -> match E { P => true, _ => false }
                        use syn::parse::{ParseStream, Parser};
                        let f = |i: ParseStream| -> syn::Result<(Expr, syn::Pat, Option<Expr>)> {
                            let ex: Expr = i.parse()?;
                            let _: syn::Token![,] = i.parse()?;
                            let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(syn::Token![if]) {
                                let _: syn::Token![if] = i.parse()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _: Option<syn::Token![,]> = i.parse()?;
                            Ok((ex, p, g))
                        };
                        if let Ok((mut ex, mut p, g)) = f.parse2(toks) {
                            self.visit_expr_mut(&mut ex);
                            self.visit_pat_mut(&mut p);
                            let g = g.map(|mut g| {
                                self.visit_expr_mut(&mut g);
                                quote!(if #g)
                            });
                            *e = Expr::Verbatim(quote!((match #ex { #p #g => true, _ => false })));
                        }
                    }
                    _ => {}
                }
            }
            Expr::Lit(l) => {
                if let syn::Lit::Str(s) = &l.lit {
                    self.lits.insert(s.value());
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Rewrites of whole expressions, before everything else.
struct Pre {
    log: BTreeSet<String>,
    /// Every comparison of this function is one of texts.
    eqs: bool,
    /// Combinators of options are unfolded.
    opts: bool,
    /// Variables whose indexing is a method call (regular expression captures).
    index: Vec<String>,
}

fn str_lit(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
}

/// The literals of a pattern that is made of string literals only, and whether each is in a `Some`.
fn lit_pats(p: &syn::Pat) -> Option<Vec<(bool, syn::Lit)>> {
    match p {
        syn::Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_) | syn::Lit::ByteStr(_)) => Some(vec![(false, l.lit.clone())]),
        syn::Pat::Or(o) => o.cases.iter().map(lit_pats).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        // Some("a")
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => {
            lit_pats(&t.elems[0]).map(|v| v.into_iter().map(|(_, l)| (true, l)).collect())
        }
        _ => None,
    }
}

fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
        }
        _ => out.push(e.clone()),
    }
}

impl Pre {
    fn indexed(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::Index(ix) = e else { return None };
        let Expr::Path(p) = &*ix.expr else { return None };
        let n = p.path.get_ident()?.to_string();
        if !self.index.contains(&n) || matches!(&*ix.index, Expr::Range(_)) {
            return None;
        }
        self.log.insert("caps[i] -> caps.vp_at(i), which carries the contract of indexing captures".into());
        let (b, i) = (&ix.expr, &ix.index);
        Some(syn::parse_quote!(#b.vp_at(#i)))
    }
}

/// What a combinator of options with a closure does. (The result has a type only if `x` is an Option.)
fn unfolded(e: &Expr) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    if m.args.len() != 1 {
        return None;
    }
    let Expr::Closure(c) = &m.args[0] else { return None };
    struct Leaves(bool);
    impl<'a> syn::visit::Visit<'a> for Leaves {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut l = Leaves(false);
    syn::visit::Visit::visit_expr(&mut l, &c.body);
    if l.0 {
        return None;
    }
    let (x, b) = (&m.receiver, &c.body);
    let p = c.inputs.first();
    match (m.method.to_string().as_str(), p) {
        ("map", Some(p)) => Some(syn::parse_quote!((match #x { Some(#p) => Some(#b), None => None }))),
        ("and_then", Some(p)) => Some(syn::parse_quote!((match #x { Some(#p) => #b, None => None }))),
        ("or_else", None) => Some(syn::parse_quote!((match #x { Some(__x) => Some(__x), None => #b }))),
        ("unwrap_or_else", None) => Some(syn::parse_quote!((match #x { Some(__x) => __x, None => #b }))),
        _ => None,
    }
}

/// A character, a number or a variant: not a text.
fn no_text(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, syn::Lit::Str(_)),
        Expr::Path(p) => p.path.segments.len() > 1,
        _ => false,
    }
}

impl VisitMut for Pre {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e {
            if let Some(x) = self.indexed(&r.expr) {
                *e = x;
            }
        }
        if let Some(x) = self.indexed(e) {
            *e = x;
        }
        // matches!(E, "a" | "b") -> match E { "a" | "b" => true, _ => false }, which is rewritten below
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                use syn::parse::{ParseStream, Parser};
                let f = |i: ParseStream| -> syn::Result<(Expr, syn::Pat)> {
                    let ex: Expr = i.parse()?;
                    let _: syn::Token![,] = i.parse()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let _: Option<syn::Token![,]> = i.parse()?;
                    Ok((ex, p))
                };
                if let Ok((ex, p)) = f.parse2(m.mac.tokens.clone()) {
                    if lit_pats(&p).is_some() {
                        *e = syn::parse_quote!((match #ex { #p => true, _ => false }));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.opts {
            if let Some(x) = unfolded(e) {
                self.log.insert("x.map(|p| B), x.and_then(|p| B), x.or_else(|| B), x.unwrap_or_else(|| B) of an Option x -> match x { Some(p) => .., None => .. }".into());
                *e = x;
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("format") && !self.index.is_empty() {
                if let Ok(a) = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated, m.mac.tokens.clone()) {
                    let mut a = a;
                    for x in a.iter_mut() {
                        match x {
                            Expr::Assign(s) => self.visit_expr_mut(&mut s.right),
                            x => self.visit_expr_mut(x),
                        }
                    }
                    m.mac.tokens = a.to_token_stream();
                }
            }
        }
        match e {
            Expr::Loop(l) => {
                // `break E` of this loop.
                struct Br(usize, usize, syn::Ident);
                impl VisitMut for Br {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        match e {
                            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                                self.0 += 1;
                                visit_mut::visit_expr_mut(self, e);
                                self.0 -= 1;
                            }
                            Expr::Closure(_) => {}
                            Expr::Break(b) if self.0 == 0 && b.label.is_none() && b.expr.is_some() => {
                                let (x, v) = (b.expr.take().unwrap(), &self.2);
                                self.1 += 1;
                                *e = syn::parse_quote!({ #v = Some(#x); break; });
                            }
                            _ => visit_mut::visit_expr_mut(self, e),
                        }
                    }
                }
                let mut b = Br(0, 0, syn::parse_str("__broke").unwrap());
                b.visit_block_mut(&mut l.body);
                if b.1 > 0 {
                    self.log.insert("loop { .. break E .. } -> { let mut v = None; loop { .. v = Some(E); break .. } v.unwrap() }, where the unwrap must be shown safe".into());
                    let (v, x) = (&b.2, e.to_token_stream());
                    *e = syn::parse_quote!({ let mut #v = None; #x match #v { Some(__v) => __v, None => vp_unreachable() } });
                }
            }
            Expr::If(i) => {
                let mut cs = vec![];
                conjuncts(&i.cond, &mut cs);
                if cs.len() < 2 || !cs.iter().any(|c| matches!(c, Expr::Let(_))) {
                    return;
                }
                self.log.insert("if let P = E && C {A} else {B} -> if let P = E { if C {A} else {B} } else {B}".into());
                let then = i.then_branch.to_token_stream();
                let els = i.else_branch.as_ref().map(|(_, b)| match &**b {
                    Expr::Block(b) => b.to_token_stream(),
                    b => quote!({ #b }),
                });
                // Neighbouring plain conditions stay together.
                let mut groups: Vec<Expr> = vec![];
                for c in cs {
                    match (groups.last_mut(), &c) {
                        (Some(g), c) if !matches!(g, Expr::Let(_)) && !matches!(c, Expr::Let(_)) => {
                            let n: Expr = syn::parse_quote!(#g && #c);
                            *g = n;
                        }
                        _ => groups.push(c),
                    }
                }
                let mut acc = then;
                for c in groups.iter().rev() {
                    let t = match &els {
                        Some(b) => quote!(if #c #acc else #b),
                        None => quote!(if #c #acc),
                    };
                    acc = quote!({ #t });
                }
                let b: syn::Block = syn::parse2(acc).unwrap();
                let Some(syn::Stmt::Expr(x, _)) = b.stmts.into_iter().next() else { return };
                *e = x;
            }
            Expr::MethodCall(m) if m.method == "copy_from_slice" && m.args.len() == 1 => {
                let Expr::Index(ix) = &*m.receiver else { return };
                let Expr::Range(r) = &*ix.index else { return };
                if r.start.is_some() || !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                    return;
                }
                let (Some(n), a, b) = (&r.end, &ix.expr, &m.args[0]) else { return };
                self.log.insert("A[..n].copy_from_slice(B) -> vp_copy_to(&mut A, n, B), which carries std's contract".into());
                *e = syn::parse_quote!(vp_copy_to(&mut #a, #n, #b));
            }
            Expr::Binary(b) if self.eqs && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && !no_text(&b.left) && !no_text(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                self.log.insert("A == B on texts -> a call that carries the contract of string comparison".into());
                *e = if matches!(b.op, syn::BinOp::Eq(_)) { syn::parse_quote!(vp_eq_str(&#l, &#r)) } else { syn::parse_quote!(!vp_eq_str(&#l, &#r)) };
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                let Expr::Tuple(t) = &*a.left else { return };
                let r = &a.right;
                let l = t.elems.iter();
                let k = (0..t.elems.len()).map(syn::Index::from);
                self.log.insert("(A, B) = E -> { let t = E; A = t.0; B = t.1; }".into());
                *e = syn::parse_quote!({ let __t = #r; #(#l = __t.#k;)* });
            }
            Expr::Match(m) if m.arms.iter().any(|a| lit_pats(&a.pat).is_some()) => {
                // match E { "a" | "b" => X, _ => Y } -> if E is "a" or "b" { X } else { Y }
                let mut acc: Option<proc_macro2::TokenStream> = None;
                for a in m.arms.iter().rev() {
                    if a.guard.is_some() {
                        return;
                    }
                    let b = &a.body;
                    match (lit_pats(&a.pat), &a.pat) {
                        (Some(ls), _) => {
                            let Some(els) = acc else { return };
                            let mut c: Option<proc_macro2::TokenStream> = None;
                            for (some, l) in ls {
                                let f: syn::Ident = syn::parse_str(match (some, &l) {
                                    (true, syn::Lit::Str(_)) => "vp_some_str",
                                    (false, syn::Lit::Str(_)) => "vp_eq_str",
                                    (false, _) => "vp_eq_bytes",
                                    _ => return,
                                }).unwrap();
                                let l = match &l {
                                    // b"ab" is [97, 98]
                                    syn::Lit::ByteStr(b) => { let v = b.value(); quote!([#(#v),*]) }
                                    _ => quote!(#l),
                                };
                                c = Some(match c {
                                    Some(c) => quote!(#c || #f(&__m, &#l)),
                                    None => quote!(#f(&__m, &#l)),
                                });
                            }
                            acc = Some(quote!(if #c { #b } else { #els }));
                        }
                        (None, syn::Pat::Wild(_)) => acc = Some(quote!(#b)),
                        (None, syn::Pat::Ident(i)) => acc = Some(quote!(let #i = __m; #b)),
                        _ => return,
                    }
                }
                let x = &m.expr;
                self.log.insert("match E { \"a\" | Some(\"b\") | .. => X, _ => Y } -> if E is \"a\" or is Some(\"b\") or .. { X } else { Y }".into());
                *e = syn::parse_quote!({ let __m = #x; #acc });
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (str_lit(&b.left) || str_lit(&b.right)) => {
                let (l, r) = (&b.left, &b.right);
                self.log.insert("A == \"lit\" -> a call that carries the contract of string comparison".into());
                *e = if matches!(b.op, syn::BinOp::Eq(_)) { syn::parse_quote!(vp_eq_str(&#l, &#r)) } else { syn::parse_quote!(!vp_eq_str(&#l, &#r)) };
            }
            Expr::MethodCall(m) if m.method == "or_insert_with" || m.method == "or_insert" => {
                let Expr::MethodCall(k) = &*m.receiver else { return };
                if k.method != "entry" || k.args.len() != 1 || m.args.len() != 1 {
                    return;
                }
                let (r, key, f) = (&k.receiver, &k.args[0], &m.args[0]);
                let n = syn::Ident::new(&format!("vp_entry_{}", m.method), m.method.span());
                self.log.insert("M.entry(K).or_insert_with(F) -> M.vp_entry_or_insert_with(K, F), which carries an assumed contract".into());
                *e = syn::parse_quote!(#r.#n(#key, #f));
            }
            _ => {}
        }
    }
}
