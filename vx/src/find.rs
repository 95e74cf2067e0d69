use quote::ToTokens;
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use std::result::Result;
use syn::*;

pub fn find_struct(f: &File, name: &str) -> Result<ItemStruct, String> {
    for i in &f.items {
        if let Item::Struct(s) = i {
            if s.ident == name {
                return Ok(s.clone());
            }
        }
    }
    Err(format!("struct {} not found", name))
}

struct Names(BTreeSet<String>);
impl<'a> Visit<'a> for Names {
    fn visit_signature(&mut self, s: &'a Signature) {
        self.0.insert(s.ident.to_string());
    }
}
pub fn all_fn_names(f: &File) -> BTreeSet<String> {
    let mut n = Names(BTreeSet::new());
    n.visit_file(f);
    n.0
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => t.to_token_stream().to_string(),
    }
}

fn from_impl(i: &ImplItemFn) -> ItemFn {
    ItemFn { attrs: vec![], vis: Visibility::Inherited, sig: i.sig.clone(), block: Box::new(i.block.clone()) }
}

pub fn nospace(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("test"))
}

/// PATH: `name` | `Type::name` | `Type@Trait::name` | `trait Trait::name`; option hdr=... matches the
/// whole impl header (white space ignored).
pub fn find_fn(f: &File, path: &str, opts: &HashMap<String, String>) -> Result<ItemFn, String> {
    let path0 = path;
    let path = path.split('#').next().unwrap().trim();
    let (owner, name) = match path.rfind("::") {
        Some(i) => (Some(&path[..i]), &path[i + 2..]),
        None => (None, path),
    };
    let mut found = vec![];
    for it in &f.items {
        match it {
            Item::Fn(x) if owner.is_none() && x.sig.ident == name => {
                let mut x = x.clone();
                x.attrs.clear();
                found.push(x)
            }
            Item::Trait(t) if owner == Some(&format!("trait {}", t.ident)) => {
                for ti in &t.items {
                    if let TraitItem::Fn(m) = ti {
                        if m.sig.ident == name {
                            if let Some(b) = &m.default {
                                found.push(ItemFn {
                                    attrs: vec![],
                                    vis: Visibility::Inherited,
                                    sig: m.sig.clone(),
                                    block: Box::new(b.clone()),
                                });
                            }
                        }
                    }
                }
            }
            Item::Impl(im) if owner.is_some() && !is_test(&im.attrs) => {
                let o = owner.unwrap();
                let (ty, tr) = match o.find('@') {
                    Some(i) => (&o[..i], Some(&o[i + 1..])),
                    None => (o, None),
                };
                if ty_name(&im.self_ty) != ty {
                    continue;
                }
                match (&im.trait_, tr) {
                    (None, None) => {}
                    (Some((_, p, _)), Some(t)) => {
                        if p.segments.last().unwrap().ident != t {
                            continue;
                        }
                    }
                    _ => continue,
                }
                if let Some(h) = opts.get("hdr") {
                    let mut hdr = im.clone();
                    hdr.items.clear();
                    hdr.attrs.clear();
                    let ht = hdr.to_token_stream().to_string();
                    let ht = nospace(ht.trim().trim_end_matches('}').trim().trim_end_matches('{'));
                    if ht != nospace(h) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        if m.sig.ident == name {
                            found.push(from_impl(m));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => Err(format!("function {} not found", path0)),
        n => Err(format!("function {} is ambiguous ({} matches)", path0, n)),
    }
}

/// PATH: `Type@Trait::NAME`; the text `const NAME: T = e;`
pub fn find_const(f: &File, path: &str) -> Result<String, String> {
    let i = path.rfind("::").ok_or("bad const path")?;
    let (owner, name) = (&path[..i], &path[i + 2..]);
    let (ty, tr) = owner.split_once('@').ok_or("bad const path")?;
    let mut found = vec![];
    for it in &f.items {
        if let Item::Impl(im) = it {
            if ty_name(&im.self_ty) != ty {
                continue;
            }
            match &im.trait_ {
                Some((_, p, _)) if p.segments.last().unwrap().ident == tr => {}
                _ => continue,
            }
            for ii in &im.items {
                if let ImplItem::Const(c) = ii {
                    if c.ident == name {
                        let (t, e) = (&c.ty, &c.expr);
                        found.push(format!("const {}: {} = {};", name, t.to_token_stream(), e.to_token_stream()));
                    }
                }
            }
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        n => Err(format!("const {}: {} matches", path, n)),
    }
}
