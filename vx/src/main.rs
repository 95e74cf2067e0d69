// vx: mechanical extraction of functions from /repo into a Verus file.
//
//   vx gen --src DIR [--expanded FILE] --unit UNIT --pins PINS --out OUT.rs --report OUT.json [--canary] [--flat]
//   vx pin --src DIR [--expanded FILE] --pins PINS UNIT...      (rewrites PINS)
//
// The unit file is Verus text with directives (lines starting with //@).  Everything that is
// executable in an extracted function comes from the source tree; the unit only supplies
// contracts, invariants and ghost code, which are inserted at structural anchors.
mod shape;
mod align;
mod carry;
mod counter;
mod desugar;
mod find;
mod inline;
mod norm;
mod print;

use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};

pub struct FnDir {
    file: String,
    path: String,
    opts: HashMap<String, String>,
    sections: Vec<(String, String)>, // (anchor, text)
}

enum Item {
    Text(String),
    Struct { file: String, name: String, opts: HashMap<String, String> },
    Const { file: String, path: String },
    Fn(FnDir),
}

fn parse_opts(parts: &[&str]) -> HashMap<String, String> {
    let mut m = HashMap::new();
    for p in parts {
        let p = p.trim();
        if p.is_empty() {
            continue;
        }
        match p.find('=') {
            Some(i) => m.insert(p[..i].trim().to_string(), p[i + 1..].trim().to_string()),
            None => m.insert(p.to_string(), String::new()),
        };
    }
    m
}

fn parse_unit(path: &Path, items: &mut Vec<Item>, seen: &mut BTreeSet<PathBuf>) {
    let canon = path.canonicalize().unwrap_or_else(|_| die(&format!("unit not found: {}", path.display())));
    if !seen.insert(canon) {
        return;
    }
    let text = fs::read_to_string(path).unwrap_or_else(|e| die(&format!("{}: {}", path.display(), e)));
    let mut cur: Option<FnDir> = None;
    let mut buf = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            if cur.is_none() {
                if !buf.is_empty() {
                    items.push(Item::Text(std::mem::take(&mut buf)));
                }
            }
            let d = d.trim();
            let (w, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            if let Some(c) = cur.as_mut() {
                let a = match w {
                    "end" => {
                        items.push(Item::Fn(cur.take().unwrap()));
                        continue;
                    }
                    "spec" | "entry" | "exit" | "attr" | "subst" => w.to_string(),
                    "loop" => format!("loop{}", rest),
                    "closure" => format!("closure{}", rest),
                    "at" => rest.to_string(),
                    _ => die(&format!("{}: unknown section {}", path.display(), w)),
                };
                c.sections.push((a, String::new()));
                if w == "subst" || w == "attr" {
                    c.sections.last_mut().unwrap().1 = rest.to_string();
                    c.sections.push(("ignored".into(), String::new()));
                }
                continue;
            }
            let parts: Vec<&str> = rest.split(" | ").map(|s| s.trim()).collect();
            match w {
                "include" => parse_unit(&path.parent().unwrap().join(rest), items, seen),
                "struct" => items.push(Item::Struct {
                    file: parts[0].into(),
                    name: parts[1].into(),
                    opts: parse_opts(&parts[2..]),
                }),
                "const" => items.push(Item::Const { file: parts[0].into(), path: parts[1].into() }),
                "fn" => {
                    cur = Some(FnDir {
                        file: parts[0].into(),
                        path: parts[1].into(),
                        opts: parse_opts(&parts[2..]),
                        sections: vec![("ignored".into(), String::new())],
                    })
                }
                _ => die(&format!("{}: unknown directive {}", path.display(), w)),
            }
        } else if let Some(c) = cur.as_mut() {
            let s = &mut c.sections.last_mut().unwrap().1;
            s.push_str(line);
            s.push('\n');
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    if cur.is_some() {
        die(&format!("{}: missing //@end", path.display()));
    }
    if !buf.is_empty() {
        items.push(Item::Text(buf));
    }
}

pub fn die(m: &str) -> ! {
    eprintln!("vx: {}", m);
    std::process::exit(3)
}

#[derive(Default, Clone)]
struct Pin {
    hash: String,
    nloops: usize,
    names: Vec<String>,
    sigs: align::Sigs,
    carry: carry::Carry,
}

#[derive(Default)]
struct Pins {
    fns: BTreeMap<String, Pin>,
    files: BTreeMap<String, BTreeSet<String>>,
}

fn load_pins(p: &Path) -> Pins {
    let mut r = Pins::default();
    if let Ok(t) = fs::read_to_string(p) {
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() == 7 && f[0] == "fn" {
                r.fns.insert(
                    f[1].into(),
                    Pin {
                        hash: f[2].into(),
                        nloops: f[3].parse().unwrap(),
                        names: f[4].split(',').filter(|s| !s.is_empty()).map(String::from).collect(),
                        sigs: align::load(f[5]),
                        carry: carry::load(f[6]),
                    },
                );
            } else if f.len() == 3 && f[0] == "file" {
                r.files.insert(f[1].into(), f[2].split(',').map(String::from).collect());
            }
        }
    }
    r
}

fn save_pins(p: &Path, pins: &Pins) {
    let mut s = String::new();
    for (k, v) in &pins.files {
        s.push_str(&format!("file\t{}\t{}\n", k, v.iter().cloned().collect::<Vec<_>>().join(",")));
    }
    for (k, v) in &pins.fns {
        s.push_str(&format!("fn\t{}\t{}\t{}\t{}\t{}\t{}\n", k, v.hash, v.nloops, v.names.join(","), align::save(&v.sigs), carry::save(&v.carry)));
    }
    fs::write(p, s).unwrap();
}

fn hash(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

pub struct Sources {
    src: PathBuf,
    expanded: Option<syn::File>,
    cache: HashMap<String, syn::File>,
}

impl Sources {
    pub fn file(&mut self, f: &str) -> Result<syn::File, String> {
        if let Some(x) = self.cache.get(f) {
            return Ok(x.clone());
        }
        let r = if let Some(m) = f.strip_prefix("exp:") {
            let e = self.expanded.as_ref().ok_or("no expanded source given")?;
            let mut items = &e.items;
            for seg in m.split("::") {
                let mut nxt = None;
                for i in items {
                    if let syn::Item::Mod(m) = i {
                        if m.ident == seg {
                            if let Some((_, c)) = &m.content {
                                nxt = Some(c);
                            }
                        }
                    }
                }
                items = nxt.ok_or(format!("module {} not found in the expanded source", m))?;
            }
            syn::File { shebang: None, attrs: vec![], items: items.clone() }
        } else {
            let p = self.src.join(f);
            let t = fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
            syn::parse_file(&t).map_err(|e| format!("{}: {}", p.display(), e))?
        };
        self.cache.insert(f.to_string(), r.clone());
        Ok(r)
    }
}

struct FnReport {
    key: String,
    changed: bool,
    missing: Option<String>,
    lost: Vec<String>,
    /// places newly carried by a loop
    carries: Vec<String>,
    drops: Vec<String>,
    begin: usize,
    end: usize,
    contract_only: bool,
    line: usize,
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut pos = vec![];
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut flags: BTreeSet<String> = BTreeSet::new();
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        if a == "--canary" || a == "--flat" || a == "--labels" {
            flags.insert(a.clone());
        } else if a.starts_with("--") {
            opt.insert(a[2..].to_string(), args.get(i + 1).cloned().unwrap_or_default());
            i += 1;
        } else {
            pos.push(a.clone());
        }
        i += 1;
    }
    let src = PathBuf::from(opt.get("src").cloned().unwrap_or("/repo/src".into()));
    let expanded = opt.get("expanded").map(|p| {
        let t = fs::read_to_string(p).unwrap_or_else(|e| die(&format!("{}: {}", p, e)));
        syn::parse_file(&t).unwrap_or_else(|e| die(&format!("{}: {}", p, e)))
    });
    let mut sources = Sources { src, expanded, cache: HashMap::new() };
    let pins_path = PathBuf::from(opt.get("pins").cloned().unwrap_or("pins.tsv".into()));
    match pos.get(0).map(|s| s.as_str()) {
        Some("pin") => {
            let mut pins = Pins::default();
            for u in &pos[1..] {
                let mut items = vec![];
                parse_unit(Path::new(u), &mut items, &mut BTreeSet::new());
                for it in &items {
                    if let Item::Fn(d) = it {
                        let f = sources.file(&d.file).unwrap_or_else(|e| die(&e));
                        pins.files.insert(d.file.clone(), find::all_fn_names(&f));
                        let fun = find::find_fn(&f, &d.path, &d.opts).unwrap_or_else(|e| die(&e));
                        let key = format!("{} | {}", d.file, d.path);
                        let mut f2 = fun.clone();
                        norm::strip_noops(&mut f2.block, &mut vec![]);
                        shape::trailing(&mut f2.block, &mut vec![]);
                        shape::shape(&mut f2.block, &mut vec![]);
                        let names = norm::binding_names(&f2);
                        do_subst(d, &mut f2, &mut vec![]).unwrap_or_else(|e| die(&e));
                        let carry = carry::carried(&f2.block);
                        let fors = desugar::desugar(&mut f2, &mut vec![], &d.opts);
                        let mut n = 0;
                        norm::count_loops(&f2.block, &mut n);
                        let sigs = signatures(&f2, fors, d);
                        pins.fns.insert(key, Pin { hash: hash(&norm::fn_text(&fun)), nloops: n, names, sigs, carry });
                    } else if let Item::Const { file, path } = it {
                        let f = sources.file(file).unwrap_or_else(|e| die(&e));
                        pins.files.insert(file.clone(), find::all_fn_names(&f));
                        let c = find::find_const(&f, path).unwrap_or_else(|e| die(&e));
                        pins.fns.insert(format!("{} | const {}", file, path), Pin { hash: hash(&c), ..Default::default() });
                    } else if let Item::Struct { file, name, .. } = it {
                        let f = sources.file(file).unwrap_or_else(|e| die(&e));
                        pins.files.insert(file.clone(), find::all_fn_names(&f));
                        let s = find::find_struct(&f, name).unwrap_or_else(|e| die(&e));
                        pins.fns.insert(
                            format!("{} | struct {}", file, name),
                            Pin { hash: hash(&s.to_token_stream().to_string()), ..Default::default() },
                        );
                    }
                }
            }
            save_pins(&pins_path, &pins);
        }
        Some("gen") => gen(&opt, &flags, &mut sources, &load_pins(&pins_path)),
        _ => die("usage: vx gen|pin ..."),
    }
}

fn gen(opt: &HashMap<String, String>, flags: &BTreeSet<String>, sources: &mut Sources, pins: &Pins) {
    let unit = PathBuf::from(&opt["unit"]);
    let canary = flags.contains("--canary");
    let flat = flags.contains("--flat");
    let mut items = vec![];
    parse_unit(&unit, &mut items, &mut BTreeSet::new());
    let mut out = String::new();
    let mut reps: Vec<FnReport> = vec![];
    let mut fatal: Vec<String> = vec![];
    for it in &items {
        match it {
            Item::Text(t) => out.push_str(t),
            Item::Const { file, path } => match sources.file(file).and_then(|f| find::find_const(&f, path)) {
                Ok(c) => {
                    let key = format!("{} | const {}", file, path);
                    let b = out.lines().count() + 1;
                    out.push_str(&c);
                    out.push('\n');
                    reps.push(FnReport {
                        changed: pins.fns.get(&key).map(|p| p.hash != hash(&c)).unwrap_or(true),
                        key,
                        missing: None,
                        lost: vec![],
 carries: vec![],
                        drops: vec![],
                        begin: b,
                        end: b,
                        contract_only: true,
                        line: 0,
                    });
                }
                Err(e) => fatal.push(e),
            },
            Item::Struct { file, name, opts } => {
                let r = sources.file(file).and_then(|f| find::find_struct(&f, name));
                match r {
                    Ok(s) => {
                        let key = format!("{} | struct {}", file, name);
                        let changed =
                            pins.fns.get(&key).map(|p| p.hash != hash(&s.to_token_stream().to_string())).unwrap_or(true);
                        let mut s = s;
                        s.attrs.clear();
                        s.vis = syn::parse_quote!(pub);
                        for f in s.fields.iter_mut() {
                            f.attrs.clear();
                            f.vis = syn::parse_quote!(pub);
                            norm::fix_type(&mut f.ty);
                        }
                        let b = out.lines().count() + 1;
                        if let Some(d) = opts.get("derive") {
                            out.push_str(&format!("#[derive({})]\n", d));
                        }
                        if let Some(d) = opts.get("attr") {
                            out.push_str(d);
                            out.push('\n');
                        }
                        out.push_str(&print::print(s.to_token_stream(), &[]));
                        out.push('\n');
                        let e = out.lines().count();
                        reps.push(FnReport {
                            key,
                            changed,
                            missing: None,
                            lost: vec![],
 carries: vec![],
                            drops: vec![],
                            begin: b,
                            end: e,
                            contract_only: true,
                            line: 0,
                        });
                    }
                    Err(e) => fatal.push(e),
                }
            }
            Item::Fn(d) => {
                let key = format!("{} | {}", d.file, d.path);
                let mut rep = FnReport {
                    key: key.clone(),
                    changed: false,
                    missing: None,
                    lost: vec![],
 carries: vec![],
                    drops: vec![],
                    begin: out.lines().count() + 1,
                    end: 0,
                    contract_only: d.opts.contains_key("contract"),
                    line: 0,
                };
                match emit_fn(d, sources, pins, &mut rep, canary, flat) {
                    Ok(t) => {
                        out.push_str(&t);
                        out.push('\n');
                    }
                    Err(e) => {
                        rep.missing = Some(e.clone());
                        fatal.push(e);
                    }
                }
                rep.end = out.lines().count();
                reps.push(rep);
            }
        }
    }
    fs::write(&opt["out"], &out).unwrap();
    let mut j = String::from("{\"fatal\":");
    j.push_str(&jl(&fatal));
    j.push_str(",\"fns\":[");
    for (n, r) in reps.iter().enumerate() {
        if n > 0 {
            j.push(',');
        }
        j.push_str(&format!(
            "\n{{\"key\":{},\"changed\":{},\"missing\":{},\"lost\":{},\"carries\":{},\"drops\":{},\"begin\":{},\"end\":{},\"contract_only\":{},\"line\":{}}}",
            js(&r.key),
            r.changed,
            r.missing.as_ref().map(|s| js(s)).unwrap_or("null".into()),
            jl(&r.lost),
            jl(&r.carries),
            jl(&r.drops),
            r.begin,
            r.end,
            r.contract_only,
            r.line
        ));
    }
    j.push_str("]}\n");
    fs::write(&opt["report"], j).unwrap();
}

fn signatures(f: &syn::ItemFn, fors: Vec<String>, d: &FnDir) -> align::Sigs {
    let mut g = f.clone();
    // closures with a contract are not looked into
    let clo = d.sections.iter().filter(|x| x.0.starts_with("closure")).map(|x| (x.0.clone(), vec![0])).collect();
    let mut an = norm::Annot::new(clo, None);
    an.run(&mut g);
    an.sigs.insert("for".into(), fors);
    an.sigs
}

fn do_subst(d: &FnDir, f: &mut syn::ItemFn, rep: &mut Vec<String>) -> Result<(), String> {
    for (a, t) in &d.sections {
        if a == "subst" {
            let (x, y) = t.split_once("==>").unwrap_or_else(|| die("bad subst"));
            let n = norm::subst(f, x.trim(), y.trim())?;
            if n > 0 {
                rep.push(format!("subst `{}` -> `{}` x{}", x.trim(), y.trim(), n));
            } else {
                rep.push(format!("subst `{}`: not present", x.trim()));
            }
        }
    }
    Ok(())
}

fn emit_fn(d: &FnDir, sources: &mut Sources, pins: &Pins, rep: &mut FnReport, canary: bool, flat: bool) -> Result<String, String> {
    let file = sources.file(&d.file)?;
    let mut f = find::find_fn(&file, &d.path, &d.opts)?;
    rep.line = f.sig.ident.span().start().line;
    let key = format!("{} | {}", d.file, d.path);
    let pin = pins.fns.get(&key).cloned().unwrap_or_default();
    rep.changed = pin.hash != hash(&norm::fn_text(&f));

    norm::strip_noops(&mut f.block, &mut rep.drops);
    // inline helpers that did not exist at the pinned commit
    if rep.changed {
        if let Some(known) = pins.files.get(&d.file) {
            for _ in 0..4 {
                if !inline::inline_new(&mut f, &file, known, &mut rep.drops) {
                    break;
                }
            }
        }
    }
    shape::trailing(&mut f.block, &mut rep.drops);
    shape::shape(&mut f.block, &mut rep.drops);
    if rep.changed {
        if !d.file.ends_with("monoids.rs") {
            shape::cmp_fns(&mut f.block, &mut rep.drops);
        }
        norm::alpha(&mut f, &pin.names, &mut rep.drops);
    }
    do_subst(d, &mut f, &mut rep.drops)?;
    if rep.changed && !pin.hash.is_empty() {
        rep.carries = carry::grown(&pin.carry, &carry::carried(&f.block));
    }
    let fors = desugar::desugar(&mut f, &mut rep.drops, &d.opts);
    let fors_of = fors.clone();
    let map = if rep.changed && !pin.hash.is_empty() { align::align(&pin.sigs, &signatures(&f, fors, d)) } else { Default::default() };
    if let (Some(m), Some(p)) = (map.get("for"), pin.sigs.get("for")) {
        // a `for` whose range starts elsewhere counts differently: the invariants over its index need not fit
        for (j, c) in signatures(&f, fors_of.clone(), d).get("for").into_iter().flatten().enumerate() {
            if let Some(q) = m.get(j).and_then(|i| p.get(*i)) {
                if align::recounted(q, c) {
                    rep.carries.push(format!("for over `{}` where `{}` was pinned", c, q));
                }
            }
        }
    }
    if !align::identity(&map) {
        rep.drops.push("anchors follow the pinned numbering".into());
        if let Some(m) = map.get("for") {
            align::rename_counters(&mut f.block, m);
        }
    }
    let mut n = 0;
    norm::count_loops(&f.block, &mut n);
    if n != pin.nloops {
        rep.lost.push(format!("{} loops where {} were pinned", n, pin.nloops));
    }
    // ghost texts
    let ret = d.opts.get("ret").cloned();
    let mut texts: Vec<String> = vec![];
    let mut anchors: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut spec = String::new();
    let mut attrs = String::new();
    for (a, t) in &d.sections {
        match a.as_str() {
            "ignored" | "subst" => {}
            "spec" => spec.push_str(t),
            "attr" => {
                attrs.push_str(t.trim());
                attrs.push('\n');
            }
            _ => {
                texts.push(t.clone());
                anchors.entry(a.clone()).or_default().push(texts.len() - 1);
            }
        }
    }
    if canary {
        texts.push("proof { assert(false); }\n".into());
        let id = texts.len() - 1;
        anchors.entry("entry".into()).or_default().push(id);
    }
    let contract = d.opts.contains_key("contract");
    // second attempt at a changed function: the loops see everything known before them
    if flat && rep.changed && !contract && n > 0 {
        for a in ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"] {
            if !attrs.contains(a) {
                attrs.push_str(a);
                attrs.push('\n');
            }
        }
    }
    let mut an = norm::Annot::new(anchors, ret.clone());
    an.map = map;
    if !contract {
        an.run(&mut f);
        rep.lost.extend(an.lost());
        if rep.changed {
            counter::counters(&mut f.block, &texts, &mut rep.drops);
        }
    }

    // an invariant that only names the bound of a desugared `for` has nothing to say when that `for` is now a `while`
    if rep.changed {
        let body = f.block.to_token_stream().to_string();
        for k in 0..4 {
            let v = format!("vx_e{k}");
            if body.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == v) {
                continue;
            }
            for t in texts.iter_mut() {
                let pat = format!("{v} == ");
                while let Some(i) = t.find(&pat) {
                    let end = t[i..].find(',').map(|j| i + j + 1);
                    match end {
                        Some(e) if t[i + pat.len()..e - 1].chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') => {
                            t.replace_range(i..e, "");
                            rep.drops.push(format!("invariant on {v} left out: no such bound"));
                        }
                        _ => break,
                    }
                }
            }
        }
    }
    // signature
    let mut sig = f.sig.clone();
    sig.generics.where_clause = None;
    if let Some(n) = d.opts.get("as") {
        sig.ident = syn::Ident::new(n, proc_macro2::Span::call_site());
    }
    let output = sig.output.clone();
    sig.output = syn::ReturnType::Default;
    let mut s = String::new();
    s.push_str(&format!("// VX-FN {} ({}:{})\n", key, d.file, rep.line));
    s.push_str(&attrs);
    if contract {
        s.push_str("#[verifier::external_body]\n");
    }
    let vis = if d.opts.contains_key("novis") { "" } else { "pub " };
    s.push_str(vis);
    s.push_str(print::print(sig.to_token_stream(), &[]).trim());
    if let syn::ReturnType::Type(_, t) = &output {
        let mut t = t.clone();
        norm::fix_type(&mut t);
        let ts = print::print(t.to_token_stream(), &[]);
        match &ret {
            Some(r) => s.push_str(&format!(" -> ({}: {})", r, ts.trim())),
            None => s.push_str(&format!(" -> {}", ts.trim())),
        }
    }
    s.push('\n');
    if let Some(w) = &f.sig.generics.where_clause {
        s.push_str(print::print(w.to_token_stream(), &[]).trim());
        s.push('\n');
    }
    s.push_str(&spec);
    if contract {
        s.push_str("{ unimplemented!() }\n");
    } else {
        s.push_str(&print::print(f.block.to_token_stream(), &texts));
    }
    s.push_str("// VX-END\n");
    Ok(s)
}
