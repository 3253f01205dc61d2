//! Processing of unit files.
use std::collections::{BTreeMap, BTreeSet};

use quote::{quote, ToTokens};
use serde_json::{json, Value};
use syn::spanned::Spanned;

use crate::{
    emit,
    rewrite::{self, FnSpec},
    source::{Found, Sources},
};

pub struct Out {
    pub text: String,
    pub meta: Value,
}

pub struct Cfg {
    /// Method renames: `name` → `vp_name` (or the given name).
    pub methods: BTreeMap<String, String>,
    /// Macro renames: `name!(..)` → `fn(args)`.
    pub macros: BTreeMap<String, String>,
    /// Path renames, by printed path.
    pub paths: BTreeMap<String, String>,
}

pub fn process(root: &str, unit: &str, smoke: bool) -> Result<Out, String> {
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let mut lines = vec![];
    let mut seen = BTreeSet::new();
    load(&dir, std::path::Path::new(unit), &mut lines, &mut seen)?;
    let mut src = Sources::new(root);
    let mut cfg = Cfg { methods: BTreeMap::new(), macros: BTreeMap::new(), paths: BTreeMap::new() };
    let mut o = String::new();
    let mut patterns = vec![];
    let (mut fns, mut types, mut rewrites, mut assumed) = (vec![], vec![], BTreeSet::new(), vec![]);
    let mut i = 0;
    let mut trusting = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            o.push_str(&l);
            o.push('\n');
            continue;
        };
        let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
        let pairs = |m: &mut BTreeMap<String, String>| {
            for w in rest.split_whitespace() {
                match w.split_once('=') {
                    Some((a, b)) => m.insert(a.into(), b.into()),
                    None => m.insert(w.into(), format!("vp_{w}")),
                };
            }
        };
        match cmd {
            "methods" => pairs(&mut cfg.methods),
            "macros" => pairs(&mut cfg.macros),
            "paths" => pairs(&mut cfg.paths),
            "trusting" => trusting += if rest.trim() == "on" { 1 } else { -1 },
            "type" => {
                let (file, name) = rest.split_once('|').ok_or("bad //@type")?;
                let (name, opts) = name.trim().split_once(' ').unwrap_or((name.trim(), ""));
                if types.iter().any(|t: &Value| t["name"] == name) {
                    continue;
                }
                let (it, f) = src.find_item(file.trim(), name)?;
                let a = o.lines().count() + 1;
                o.push_str(&emit_type(it, opts, &cfg));
                types.push(json!({"name": name, "file": f, "out_line": a}));
            }
            "pattern" => {
                // The assumed contract of a regular expression is about this very pattern.
                let mut w = rest.splitn(3, '|');
                let (file, name, pat) = (w.next().unwrap_or("").trim(), w.next().unwrap_or("").trim(), w.next().ok_or("bad //@pattern")?.trim());
                let want: syn::LitStr = syn::parse_str(pat).map_err(|x| format!("{name}: {x}"))?;
                let (it, _) = src.find_item(file, name)?;
                struct Lits(Vec<String>);
                impl<'a> syn::visit::Visit<'a> for Lits {
                    fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
                        self.0.push(l.value());
                    }
                }
                let mut l = Lits(vec![]);
                syn::visit::Visit::visit_item(&mut l, &it);
                let norm = |s: &str| {
                    if s.starts_with("(?x") {
                        s.replace("\\ ", "\\x20").lines().map(|l| l.split(" #").next().unwrap_or("")).collect::<String>().split_whitespace().collect::<String>()
                    } else {
                        s.to_string()
                    }
                };
                if !l.0.iter().any(|x| norm(x) == norm(&want.value())) {
                    return Err(format!("the pattern of {name} that its contract is about"));
                }
                patterns.push(json!({"name": name, "pattern": want.value()}));
            }
            "fn" | "assume" | "slice" | "inlined" => {
                let (file, path) = rest.split_once('|').ok_or("bad //@fn")?;
                let (path, piece) = match path.split_once('|') {
                    Some((a, b)) => (a, Some(b.trim().to_string())),
                    None => (path, None),
                };
                let mut spec = FnSpec::default();
                if cmd == "assume" || trusting > 0 {
                    spec.external = true;
                }
                let mut cur: Option<String> = None;
                loop {
                    let Some(l) = lines.get(i) else { return Err(format!("unterminated {rest}")) };
                    i += 1;
                    let t = l.trim();
                    if t == "//@end" {
                        break;
                    }
                    if let Some(k) = t.strip_prefix("//@ ") {
                        // An anchor may hold colons itself.
                        let anchor = (k.starts_with("before ") || k.starts_with("after ")) && k.ends_with(':');
                        let (key, val) = if anchor { (&k[..k.len() - 1], "") } else { k.split_once(':').unwrap_or((k, "")) };
                        spec.sections.insert(key.trim().to_string(), val.trim().to_string());
                        cur = Some(key.trim().to_string());
                    } else if let Some(c) = &cur {
                        let s = spec.sections.get_mut(c).unwrap();
                        s.push('\n');
                        s.push_str(l);
                    } else {
                        return Err(format!("stray text in {rest}: {l}"));
                    }
                }
                if smoke && !spec.external {
                    let st = spec.sections.entry("start".into()).or_default();
                    *st = format!("{st}\nproof {{ assert(false); }}");
                }
                if trusting > 0 {
                    spec.sections.remove("attrs");
                }
                let (mut found, f) = src.find_fn(file.trim(), path.trim())?;
                if let Some(c) = spec.sections.get("call") {
                    found = replace_call(found, c)?;
                }
                if cmd == "inlined" {
                    // `FILE | FN | FILE2 | CALLER`: FN with the closure that CALLER gives it in place of its parameter.
                    let w: Vec<&str> = rest.split('|').map(|x| x.trim()).collect();
                    let [_, callee, file2, caller] = w[..] else { return Err("bad //@inlined".into()) };
                    let (c, _) = src.find_fn(file2, caller)?;
                    found = inline_closure(found, c, callee, &spec)?;
                    rewrites.insert(format!("the closure that {caller} passes to {callee} put in place of that parameter (beta reduction), its captures as parameters"));
                } else if let Some(p) = &piece {
                    found = slice_of(found, p, spec.sections.get("sig").map(|s| s.as_str()).unwrap_or(""))?;
                    rewrites.insert(format!("part of a function taken alone, its free variables as parameters: `{p}` of {}", path.trim()));
                }
                let a = o.lines().count() + 1;
                let e = emit_fn(found, &spec, &cfg, &mut rewrites)?;
                // Proof text whose statement, loop or closure is not there (any more).
                let unplaced: Vec<&String> = if spec.external { vec![] } else {
                    spec.sections.iter().filter(|(k, v)| ["before ", "after ", "loop ", "closure "].iter().any(|p| k.starts_with(p)) && !k.ends_with(" iter") && !k.ends_with(" params") && !k.ends_with(" bind") && !v.trim().is_empty() && !e.text.contains(v.trim())).map(|(k, _)| k).collect()
                };
                o.push_str(&e.text);
                let b = o.lines().count();
                let nm = match &piece { Some(_) if cmd == "inlined" => format!("{} (in {})", path.trim(), rest.rsplit('|').next().unwrap_or("").trim()), Some(p) => format!("{} ({p})", path.trim()), None => path.trim().to_string() };
                let m = json!({"name": nm, "file": f, "line": e.line, "end_line": e.end_line, "out_start": a, "out_end": b,
                    "loops": e.loops, "loops_specified": spec.sections.keys().filter(|k| k.starts_with("loop ") && k.split(' ').count() == 2).count(),
                    "closures": e.closures, "calls": e.calls, "unplaced": unplaced});
                if spec.external {
                    assumed.push(m);
                } else {
                    fns.push(m);
                }
            }
            _ => return Err(format!("unknown directive {t}")),
        }
    }
    let meta = json!({"functions": fns, "types": types, "assumed_contracts_on_repo_functions": assumed, "patterns_with_assumed_contracts": patterns,
        "rewrites": rewrites.into_iter().collect::<Vec<_>>()});
    Ok(Out { text: o, meta })
}

fn load(dir: &std::path::Path, p: &std::path::Path, out: &mut Vec<String>, seen: &mut BTreeSet<String>) -> Result<(), String> {
    if !seen.insert(p.to_string_lossy().to_string()) {
        return Ok(());
    }
    let t = std::fs::read_to_string(p).map_err(|e| format!("{}: {e}", p.display()))?;
    for l in t.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            load(dir, &dir.join(f.trim()), out, seen)?;
        } else if let Some(f) = l.trim().strip_prefix("//@trust ") {
            // The same contracts, not proved again here (another unit proves them).
            out.push("//@trusting on".to_string());
            load(dir, &dir.join(f.trim()), out, seen)?;
            out.push("//@trusting off".to_string());
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

fn emit_type(it: syn::Item, opts: &str, cfg: &Cfg) -> String {
    let derive = opts.split_whitespace().find_map(|o| o.strip_prefix("derive="));
    let d = match derive {
        Some(d) if !d.is_empty() => {
            let l: Vec<syn::Ident> = d.split(',').map(|x| syn::parse_str(x).unwrap()).collect();
            quote!(#[derive(#(#l),*)])
        }
        _ => quote!(),
    };
    let ext: Option<syn::Ident> = opts.split_whitespace().any(|o| o == "opaque").then(|| syn::parse_str("external_body").unwrap());
    let ext = ext.map(|e| quote!(#[verifier::#e])).unwrap_or_default();
    let mut rw = rewrite::PathFix { cfg };
    let ts = match it {
        syn::Item::Struct(mut s) => {
            s.attrs.clear();
            s.vis = syn::Visibility::Inherited;
            if let Some(k) = opts.split_whitespace().find_map(|o| o.strip_prefix("keep=")) {
                // Only the named fields (the functions under contract use no others).
                let ks: Vec<&str> = k.split(',').collect();
                if let syn::Fields::Named(n) = &mut s.fields {
                    n.named = n.named.clone().into_iter().filter(|f| ks.contains(&f.ident.as_ref().unwrap().to_string().as_str())).collect();
                    if opts.split_whitespace().any(|o| o == "rest") {
                        // The other fields, as one of which nothing is known.
                        let f: syn::FieldsNamed = syn::parse_quote!({ __rest: VpRest });
                        n.named.extend(f.named);
                    }
                }
            }
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::Visibility::Inherited;
            }
            syn::visit_mut::visit_item_struct_mut(&mut rw, &mut s);
            s.into_token_stream()
        }
        syn::Item::Enum(mut s) => {
            s.attrs.clear();
            s.vis = syn::Visibility::Inherited;
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            syn::visit_mut::visit_item_enum_mut(&mut rw, &mut s);
            s.into_token_stream()
        }
        syn::Item::Const(mut s) => {
            s.attrs.clear();
            s.vis = syn::Visibility::Inherited;
            if let Some(v) = opts.split_whitespace().find_map(|o| o.strip_prefix("exec=")) {
                let (id, ty, e) = (&s.ident, &s.ty, &s.expr);
                let v: proc_macro2::TokenStream = v.parse().unwrap();
                let ex: syn::Ident = syn::parse_str("exec").unwrap();
                let en: syn::Ident = syn::parse_str("ensures").unwrap();
                return emit::print(quote!(#ex const #id: #ty #en #v { #e }), &[]) + "\n";
            }
            let mut t = s.into_token_stream();
            if opts.split_whitespace().any(|o| o == "exec") {
                let id: syn::Ident = syn::parse_str("exec").unwrap();
                t = quote!(#id #t);
            }
            t
        }
        syn::Item::Static(s) => s.into_token_stream(),
        _ => quote!(),
    };
    emit::print(quote!(#d #ext #ts), &[]) + "\n"
}

struct Emitted {
    text: String,
    line: usize,
    end_line: usize,
    loops: usize,
    closures: usize,
    calls: Vec<String>,
}

fn emit_fn(found: Found, spec: &FnSpec, cfg: &Cfg, rewrites: &mut BTreeSet<String>) -> Result<Emitted, String> {
    let (mut sig, mut block, head) = match found {
        Found::Free(f) => (f.sig, *f.block, None),
        Found::Method { generics, self_ty, f, .. } => (f.sig, f.block, Some((generics, self_ty))),
    };
    let line = sig.span().start().line;
    let end_line = block.span().end().line;
    let mut ctx = rewrite::Ctx::new(spec, cfg);
    rewrite::function(&mut ctx, &mut sig, &mut block);
    rewrites.extend(ctx.log.iter().cloned());
    sig.constness = None;
    let mut raw = std::mem::take(&mut ctx.raw);
    let mut contract = spec.sections.get("spec").cloned().unwrap_or_default();
    if contract.trim().is_empty() {
        contract = String::new();
    }
    raw.push(contract);
    let mark: syn::Ident = syn::parse_str(&format!("__VP_{}__", raw.len() - 1)).unwrap();
    // Named return value.
    let ret = spec.sections.get("ret").cloned();
    let out: proc_macro2::TokenStream = match &sig.output {
        syn::ReturnType::Default => quote!(),
        syn::ReturnType::Type(_, t) => match ret.as_deref().unwrap_or("r") {
            "" => quote!(-> #t),
            r => {
                let r: syn::Ident = syn::parse_str(r).unwrap();
                quote!(-> (#r: #t))
            }
        },
    };
    sig.output = syn::ReturnType::Default;
    let wher = sig.generics.where_clause.take();
    if let Some(n) = spec.sections.get("name") {
        sig.ident = syn::parse_str(n).unwrap();
    }
    let mut attrs = String::new();
    if let Some(a) = spec.sections.get("attrs") {
        attrs = a.clone();
    }
    if !attrs.contains("loop_isolation") && ctx.loops > 0 && !spec.external {
        attrs.push_str(" #[verifier::loop_isolation(false)]");
    }
    if !spec.external {
        attrs.push_str(" #[verifier::spinoff_prover] #[verifier::rlimit(60)]");
    }
    raw.push(attrs);
    let amark: syn::Ident = syn::parse_str(&format!("__VP_{}__", raw.len() - 1)).unwrap();
    let body = if spec.external {
        quote!(#amark #[verifier::external_body] #sig #out #wher #mark { unimplemented!() })
    } else {
        quote!(#amark #sig #out #wher #mark #block)
    };
    let ts = match head {
        Some((mut g, mut ty)) => {
            rewrite::fix_type(cfg, &mut ty);
            if let Some(h) = spec.sections.get("impl") {
                let h: proc_macro2::TokenStream = h.parse().unwrap();
                quote!(#h { #body })
            } else {
                let w = g.where_clause.take();
                quote!(impl #g #ty #w { #body })
            }
        }
        None => body,
    };
    Ok(Emitted {
        text: emit::print(ts, &raw) + "\n",
        line,
        end_line,
        loops: ctx.loops,
        closures: ctx.closures,
        calls: ctx.calls.into_iter().collect(),
    })
}

/// `NAME = EXPR`: calls of NAME are EXPR, in which `__aN` is the N-th argument.
fn replace_call(found: Found, c: &str) -> Result<Found, String> {
    struct R(String, syn::Expr, usize);
    impl syn::visit_mut::VisitMut for R {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let syn::Expr::Call(k) = e {
                if k.func.to_token_stream().to_string() == self.0 && k.args.iter().any(|a| matches!(a, syn::Expr::Closure(_))) {
                    struct A(Vec<syn::Expr>);
                    impl syn::visit_mut::VisitMut for A {
                        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
                            if let Some(n) = e.to_token_stream().to_string().strip_prefix("__a").and_then(|n| n.parse::<usize>().ok()) {
                                if let Some(x) = self.0.get(n) {
                                    *e = x.clone();
                                    return;
                                }
                            }
                            syn::visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    let mut n = self.1.clone();
                    syn::visit_mut::VisitMut::visit_expr_mut(&mut A(k.args.iter().cloned().collect()), &mut n);
                    *e = n;
                    self.2 += 1;
                }
            }
        }
    }
    let (name, e) = c.split_once('=').ok_or("bad call")?;
    let e: syn::Expr = syn::parse_str(e).map_err(|x| x.to_string())?;
    let mut r = R(name.trim().to_string(), e, 0);
    let mut found = found;
    match &mut found {
        Found::Free(f) => syn::visit_mut::VisitMut::visit_block_mut(&mut r, &mut f.block),
        Found::Method { f, .. } => syn::visit_mut::VisitMut::visit_block_mut(&mut r, &mut f.block),
    }
    if r.2 != 1 {
        return Err(format!("one call of {} with a closure", name.trim()));
    }
    Ok(found)
}

/// `callee` with its closure parameter (section `f`) replaced by the closure that `caller` passes; captures are parameters `__c_NAME` (section `captures`).
fn inline_closure(callee: Found, caller: Found, name: &str, spec: &FnSpec) -> Result<Found, String> {
    struct Find(String, Vec<syn::ExprClosure>);
    impl<'a> syn::visit::Visit<'a> for Find {
        fn visit_expr_call(&mut self, k: &'a syn::ExprCall) {
            if k.func.to_token_stream().to_string() == self.0 {
                for a in &k.args {
                    if let syn::Expr::Closure(c) = a {
                        self.1.push(c.clone());
                    }
                }
            }
            syn::visit::visit_expr_call(self, k);
        }
    }
    let mut f = Find(name.to_string(), vec![]);
    let b = match &caller {
        Found::Free(f) => &*f.block,
        Found::Method { f, .. } => &f.block,
    };
    syn::visit::Visit::visit_block(&mut f, b);
    if f.1.len() != 1 {
        return Err(format!("one closure passed to {name}"));
    }
    let mut cl = f.1.remove(0);
    struct Caps(Vec<String>);
    impl syn::visit_mut::VisitMut for Caps {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            let id = |x: &syn::Expr| match x {
                syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()).filter(|n| self.0.contains(n)),
                _ => None,
            };
            let new = match &*e {
                // A capture that is borrowed mutably is a parameter that is a mutable reference.
                syn::Expr::Reference(r) if r.mutability.is_some() => id(&r.expr),
                x => id(x),
            };
            if let Some(n) = new {
                let i: syn::Ident = syn::parse_str(&format!("__c_{n}")).unwrap();
                *e = syn::parse_quote!(#i);
                return;
            }
            syn::visit_mut::visit_expr_mut(self, e);
        }
    }
    let caps = spec.sections.get("captures").cloned().unwrap_or_default();
    syn::visit_mut::VisitMut::visit_expr_mut(&mut Caps(caps.split_whitespace().map(|x| x.to_string()).collect()), &mut cl.body);
    struct Apply(String, syn::ExprClosure, usize);
    impl syn::visit_mut::VisitMut for Apply {
        fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let syn::Expr::Call(k) = e {
                if k.func.to_token_stream().to_string() == self.0 && k.args.len() == self.1.inputs.len() {
                    let (p, a, b) = (self.1.inputs.iter(), k.args.iter(), &self.1.body);
                    *e = syn::parse_quote!({ #(let #p = #a;)* #b });
                    self.2 += 1;
                }
            }
        }
    }
    let (mut block, generics, self_ty) = match callee {
        Found::Free(f) => (*f.block, None, None),
        Found::Method { generics, self_ty, f, .. } => (f.block, Some(generics), Some(self_ty)),
    };
    let _ = (generics, self_ty);
    let mut a = Apply(spec.sections.get("f").cloned().unwrap_or_default(), cl, 0);
    syn::visit_mut::VisitMut::visit_block_mut(&mut a, &mut block);
    if a.2 == 0 {
        return Err(format!("a call of the closure parameter of {name}"));
    }
    let sg: proc_macro2::TokenStream = spec.sections.get("sig").map(|s| s.as_str()).unwrap_or("").parse().map_err(|_| "bad sig")?;
    let m: syn::ItemFn = syn::parse2(quote!(#sg #block)).map_err(|x| x.to_string())?;
    Ok(Found::Free(m))
}

/// The initializer of `let NAME` in a function, as a function of its own with signature `sig`.
fn slice_of(found: Found, piece: &str, sig: &str) -> Result<Found, String> {
    let (block, head) = match found {
        Found::Free(f) => (*f.block, None),
        Found::Method { generics, self_ty, is_trait, f } => (f.block, Some((generics, self_ty, is_trait))),
    };
    let name = piece.strip_prefix("let ").ok_or("bad slice")?.trim().to_string();
    struct Find(String, Vec<syn::Expr>);
    impl<'a> syn::visit::Visit<'a> for Find {
        fn visit_local(&mut self, l: &'a syn::Local) {
            let p = match &l.pat {
                syn::Pat::Type(t) => t.pat.to_token_stream().to_string(),
                p => p.to_token_stream().to_string(),
            };
            if p == self.0 {
                if let Some(i) = &l.init {
                    self.1.push((*i.expr).clone());
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut f = Find(name, vec![]);
    syn::visit::Visit::visit_block(&mut f, &block);
    let e = f.1.into_iter().next().ok_or(format!("`{piece}`"))?;
    let sg: proc_macro2::TokenStream = sig.parse().map_err(|_| "bad sig")?;
    match head {
        Some((generics, self_ty, is_trait)) if !sig.contains("@free") => {
            let m: syn::ImplItemFn = syn::parse2(quote!(#sg { #e })).map_err(|x| x.to_string())?;
            Ok(Found::Method { generics, self_ty, is_trait, f: m })
        }
        _ => {
            let m: syn::ItemFn = syn::parse2(quote!(#sg { #e })).map_err(|x| x.to_string())?;
            Ok(Found::Free(m))
        }
    }
}
