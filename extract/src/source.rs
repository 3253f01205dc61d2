//! Finding items in the repository's source.
use std::collections::HashMap;

pub struct Sources {
    root: String,
    files: HashMap<String, syn::File>,
}

pub enum Found {
    Free(syn::ItemFn),
    Method { generics: syn::Generics, self_ty: syn::Type, is_trait: bool, f: syn::ImplItemFn },
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let s = quote::quote!(#a).to_string();
            s.contains("test")
        }
    })
}

pub fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}

impl Sources {
    pub fn new(root: &str) -> Self {
        Self { root: root.to_string(), files: HashMap::new() }
    }

    pub fn file(&mut self, rel: &str) -> Result<&syn::File, String> {
        if !self.files.contains_key(rel) {
            let p = format!("{}/{}", self.root, rel);
            let t = std::fs::read_to_string(&p).map_err(|e| format!("{rel}: {e}"))?;
            let f = syn::parse_file(&t).map_err(|e| format!("{rel}: {e}"))?;
            self.files.insert(rel.to_string(), f);
        }
        Ok(&self.files[rel])
    }

    /// All candidate files: the named one first, then every file of the crate
    /// (so that an item that moved to another file is still found).
    fn all_files(&self) -> Vec<String> {
        fn walk(dir: &std::path::Path, root: &str, out: &mut Vec<String>) {
            let Ok(rd) = std::fs::read_dir(dir) else { return };
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    if p.file_name().map(|n| n == "tests") != Some(true) {
                        walk(&p, root, out);
                    }
                } else if p.extension().map(|x| x == "rs") == Some(true) {
                    out.push(p.to_string_lossy()[root.len() + 1..].to_string());
                }
            }
        }
        let mut v = vec![];
        walk(std::path::Path::new(&self.root), &self.root, &mut v);
        v.sort();
        v
    }

    /// Find `name`, `Type::name`, or `Trait for Type::name`.
    pub fn find_fn(&mut self, rel: &str, path: &str) -> Result<(Found, String), String> {
        let mut files = vec![rel.to_string()];
        files.extend(self.all_files());
        for f in files {
            if let Ok(file) = self.file(&f) {
                if let Some(x) = find_fn_in(&file.items, path) {
                    return Ok((x, f));
                }
            }
        }
        if let Some((tr, p)) = path.split_once(" for ") {
            if let Some((ty, name)) = p.rsplit_once("::") {
                if let Some(x) = self.default_method(tr.trim(), ty.trim(), name.trim()) {
                    return Ok(x);
                }
            }
        }
        Err(format!("function {path} (expected in {rel})"))
    }

    /// The default method of a trait that the type implements without one of its own.
    fn default_method(&mut self, tr: &str, ty: &str, name: &str) -> Option<(Found, String)> {
        let mut im = None;
        let mut def = None;
        for f in self.all_files() {
            let Ok(file) = self.file(&f) else { continue };
            for it in &file.items {
                match it {
                    syn::Item::Impl(i) if !is_test(&i.attrs) && ty_name(&i.self_ty) == ty => {
                        if i.trait_.as_ref().and_then(|(_, p, _)| p.segments.last()).is_some_and(|s| s.ident == tr) {
                            im = Some((i.generics.clone(), (*i.self_ty).clone()));
                        }
                    }
                    syn::Item::Trait(t) if !is_test(&t.attrs) && t.ident == tr => {
                        for m in &t.items {
                            if let syn::TraitItem::Fn(m) = m {
                                if m.sig.ident == name {
                                    if let Some(b) = &m.default {
                                        def = Some((m.attrs.clone(), m.sig.clone(), b.clone(), f.clone()));
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        let ((generics, self_ty), (attrs, sig, block, f)) = (im?, def?);
        let f_ = syn::ImplItemFn { attrs, vis: syn::Visibility::Inherited, defaultness: None, sig, block };
        Some((Found::Method { generics, self_ty, is_trait: true, f: f_ }, f))
    }

    pub fn find_item(&mut self, rel: &str, name: &str) -> Result<(syn::Item, String), String> {
        let mut files = vec![rel.to_string()];
        files.extend(self.all_files());
        for f in files {
            if let Ok(file) = self.file(&f) {
                if let Some(x) = find_item_in(&file.items, name) {
                    return Ok((x, f));
                }
            }
        }
        Err(format!("item {name} (expected in {rel})"))
    }
}

fn find_fn_in(items: &[syn::Item], path: &str) -> Option<Found> {
    let (tr, path) = match path.split_once(" for ") {
        Some((t, p)) => (Some(t.trim()), p.trim()),
        None => (None, path),
    };
    let (ty, name) = match path.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, path),
    };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && !is_test(&f.attrs) && f.sig.ident == name => {
                return Some(Found::Free(f.clone()));
            }
            syn::Item::Impl(im) if !is_test(&im.attrs) => {
                let Some(ty) = ty else { continue };
                if ty_name(&im.self_ty) != ty {
                    continue;
                }
                let itr = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last()).map(|s| s.ident.to_string());
                let full = im.trait_.as_ref().and_then(|(_, p, _)| p.segments.last()).map(|s| quote::quote!(#s).to_string().replace(' ', ""));
                match (tr, &itr) {
                    (None, Some(_)) => continue,
                    (Some(a), Some(b)) if a == b || Some(a.replace(' ', "")) == full => {}
                    (Some(_), _) => continue,
                    (None, None) => {}
                }
                for m in &im.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if f.sig.ident == name && !is_test(&f.attrs) {
                            return Some(Found::Method {
                                generics: im.generics.clone(),
                                self_ty: (*im.self_ty).clone(),
                                is_trait: itr.is_some(),
                                f: f.clone(),
                            });
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    let p = match tr {
                        Some(t) => format!("{t} for {path}"),
                        None => path.to_string(),
                    };
                    if let Some(x) = find_fn_in(its, &p) {
                        return Some(x);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn find_item_in(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items {
        let (id, attrs) = match it {
            syn::Item::Struct(s) => (&s.ident, &s.attrs),
            syn::Item::Enum(s) => (&s.ident, &s.attrs),
            syn::Item::Const(s) => (&s.ident, &s.attrs),
            syn::Item::Static(s) => (&s.ident, &s.attrs),
            _ => continue,
        };
        if id == name && !is_test(attrs) {
            return Some(it.clone());
        }
    }
    None
}
