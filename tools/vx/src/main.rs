//! vx: mechanical extractor. Reads a contract file (*.vs), pulls the named items out of
//! /repo's *current* sources, applies the documented mechanical rewrites (see DESIGN.md) and
//! emits one Verus file plus a JSON description of what was extracted.
//!
//! usage: vx <contracts.vs> <repo-src-dir> <out.rs> <out.json>
//! exit 0: emitted.  exit 3: an anchor named in the contract file was not found in the source
//! ("lost anchor"), the reason is on stderr and in out.json.
mod desugar;
mod print;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub name: Option<String>,
    pub ret: String,
    pub opts: Vec<String>,
    pub spec: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, String>,
    pub at: BTreeMap<(usize, String), String>,
    pub before: Vec<(String, usize, String)>,
    pub subst: Vec<(String, String)>,
    pub sig: Option<String>,
    pub nloops: Option<usize>,
    pub outline: Option<Outline>,
}

/// the statements of a loop's body (behind its binding) as a function of their own, verified `cases` times
#[derive(Default, Debug, Clone)]
pub struct Outline {
    pub n: usize,
    pub name: String,
    pub cases: Vec<String>,
    pub call: String,
    pub head: String,
    pub entry: String,
    pub exit: String,
}

#[derive(Debug)]
enum Item {
    Raw(String),
    Type { file: String, name: String, opts: Vec<String> },
    Const { file: String, name: String },
    Fn(Box<FnSpec>),
}

pub struct Lost(pub String);
type R<T> = Result<T, Lost>;

fn lost<T>(s: impl Into<String>) -> R<T> {
    Err(Lost(s.into()))
}

fn parse_spec(path: &Path, out: &mut Vec<Item>) -> R<()> {
    let text = std::fs::read_to_string(path).map_err(|e| Lost(format!("{}: {e}", path.display())))?;
    #[derive(Clone)]
    enum Tgt {
        None,
        Raw,
        Spec,
        Loop(usize),
        At(usize, String),
        Entry,
        Exit,
        Before(String, usize),
        OHead,
        OEntry,
        OExit,
    }
    let mut tgt = Tgt::None;
    let mut cur: Option<FnSpec> = None;
    let mut raw = String::new();
    macro_rules! flush_raw {
        () => {
            if !raw.trim().is_empty() {
                out.push(Item::Raw(std::mem::take(&mut raw)));
            } else {
                raw.clear();
            }
        };
    }
    macro_rules! flush_fn {
        () => {
            if let Some(f) = cur.take() {
                out.push(Item::Fn(Box::new(f)));
            }
        };
    }
    for line in text.lines() {
        if let Some(d) = line.strip_prefix('@') {
            let mut w = d.split_whitespace();
            let kw = w.next().unwrap_or("");
            let rest: Vec<String> = w.map(|s| s.to_string()).collect();
            match kw {
                "#" => {}
                "include" => {
                    flush_raw!();
                    flush_fn!();
                    tgt = Tgt::None;
                    parse_spec(&path.parent().unwrap().join(&rest[0]), out)?;
                }
                "raw" => {
                    flush_raw!();
                    flush_fn!();
                    tgt = Tgt::Raw;
                }
                "type" => {
                    flush_raw!();
                    flush_fn!();
                    tgt = Tgt::None;
                    out.push(Item::Type { file: rest[0].clone(), name: rest[1].clone(), opts: rest[2..].to_vec() });
                }
                "const" => {
                    flush_raw!();
                    flush_fn!();
                    tgt = Tgt::None;
                    out.push(Item::Const { file: rest[0].clone(), name: rest[1].clone() });
                }
                "fn" => {
                    flush_raw!();
                    flush_fn!();
                    tgt = Tgt::None;
                    let mut f = FnSpec { file: rest[0].clone(), path: rest[1].clone(), ret: "r".into(), ..Default::default() };
                    for o in &rest[2..] {
                        if let Some(r) = o.strip_prefix("ret=") {
                            f.ret = r.into();
                        } else if let Some(r) = o.strip_prefix("name=") {
                            f.name = Some(r.into());
                        } else if let Some(r) = o.strip_prefix("loops=") {
                            f.nloops = Some(r.parse().unwrap());
                        } else {
                            f.opts.push(o.clone());
                        }
                    }
                    cur = Some(f);
                }
                "sig" => {
                    cur.as_mut().unwrap().sig = Some(d.strip_prefix("sig").unwrap().trim().to_string());
                }
                "spec" => tgt = Tgt::Spec,
                "entry" => tgt = Tgt::Entry,
                "exit" => tgt = Tgt::Exit,
                "loop" => {
                    let n: usize = rest[0].parse().unwrap();
                    if rest.len() > 1 {
                        tgt = Tgt::At(n, rest[1].clone());
                    } else {
                        tgt = Tgt::Loop(n);
                    }
                }
                // @outline <loop> <name> <cases> <call>; then the header of the function with its contract
                "outline" => {
                    cur.as_mut().unwrap().outline = Some(Outline {
                        n: rest[0].parse().unwrap(),
                        name: rest[1].clone(),
                        cases: rest[2].split(',').map(|s| s.to_string()).collect(),
                        call: rest[3..].join(" "),
                        ..Default::default()
                    });
                    tgt = Tgt::OHead;
                }
                "outline_entry" => tgt = Tgt::OEntry,
                "outline_exit" => tgt = Tgt::OExit,
                "before" | "before2" | "before3" => {
                    let n = match kw { "before" => 0, "before2" => 1, _ => 2 };
                    tgt = Tgt::Before(d.strip_prefix(kw).unwrap().trim().to_string(), n);
                }
                "subst" => {
                    let s = d.strip_prefix("subst").unwrap();
                    let (a, b) = s.split_once("=>>").expect("subst needs =>>");
                    cur.as_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                _ => return lost(format!("bad directive @{kw}")),
            }
            continue;
        }
        let l = format!("{line}\n");
        match &tgt {
            Tgt::None => {}
            Tgt::Raw => raw.push_str(&l),
            Tgt::Spec => cur.as_mut().unwrap().spec.push_str(&l),
            Tgt::Entry => cur.as_mut().unwrap().entry.push_str(&l),
            Tgt::Exit => cur.as_mut().unwrap().exit.push_str(&l),
            Tgt::Loop(n) => cur.as_mut().unwrap().loops.entry(*n).or_default().push_str(&l),
            Tgt::At(n, w) => cur.as_mut().unwrap().at.entry((*n, w.clone())).or_default().push_str(&l),
            Tgt::OHead => cur.as_mut().unwrap().outline.as_mut().unwrap().head.push_str(&l),
            Tgt::OEntry => cur.as_mut().unwrap().outline.as_mut().unwrap().entry.push_str(&l),
            Tgt::OExit => cur.as_mut().unwrap().outline.as_mut().unwrap().exit.push_str(&l),
            Tgt::Before(t, n) => {
                let f = cur.as_mut().unwrap();
                if let Some(x) = f.before.iter_mut().find(|x| x.0 == *t && x.1 == *n) {
                    x.2.push_str(&l)
                } else {
                    f.before.push((t.clone(), *n, l))
                }
            }
        }
    }
    flush_raw!();
    flush_fn!();
    Ok(())
}

struct Sources {
    root: PathBuf,
    cache: BTreeMap<String, syn::File>,
}
impl Sources {
    fn get(&mut self, f: &str) -> R<&syn::File> {
        if !self.cache.contains_key(f) {
            let p = self.root.join(f);
            let t = std::fs::read_to_string(&p).map_err(|e| Lost(format!("source file {f}: {e}")))?;
            let ast = syn::parse_file(&t).map_err(|e| Lost(format!("source file {f} does not parse: {e}")))?;
            self.cache.insert(f.to_string(), ast);
        }
        Ok(&self.cache[f])
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        use quote::ToTokens;
        a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test")
    })
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        syn::Type::Slice(s) => format!("[{}]", type_name(&s.elem)),
        _ => "?".into(),
    }
}

struct Found {
    sig: syn::Signature,
    block: syn::Block,
    impl_generics: Option<(syn::Generics, syn::Type)>,
    line: usize,
}

/// path: `name`, `Type::name` or `Trait@Type::name`
fn find_fn(file: &syn::File, path: &str) -> Option<Found> {
    fn walk(items: &[syn::Item], path: &str) -> Option<Found> {
        let (owner, name) = match path.rsplit_once("::") {
            Some((o, n)) => (Some(o), n),
            None => (None, path),
        };
        for it in items {
            match it {
                // the value of a constant, as a function: `const@NAME`
                syn::Item::Const(c) if owner.is_none() && name.strip_prefix("const@").is_some_and(|n| c.ident == n) => {
                    let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                    return Some(Found {
                        sig: syn::parse_quote!(fn #id() -> #ty),
                        block: syn::parse_quote!({ #e }),
                        impl_generics: None,
                        line: c.ident.span().start().line,
                    });
                }
                syn::Item::Fn(f) if owner.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                    return Some(Found {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        impl_generics: None,
                        line: f.sig.ident.span().start().line,
                    });
                }
                syn::Item::Impl(im) if owner.is_some() && !is_test(&im.attrs) => {
                    let own = owner.unwrap();
                    let (tr, ty) = match own.split_once('@') {
                        Some((a, b)) => (Some(a), b),
                        None => (None, own),
                    };
                    if type_name(&im.self_ty) != ty {
                        continue;
                    }
                    let trn = im.trait_.as_ref().map(|t| {
                        let s = t.1.segments.last().unwrap();
                        let mut n = s.ident.to_string();
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            use quote::ToTokens;
                            let t = a.args.to_token_stream().to_string().replace(' ', "");
                            n = format!("{n}<{t}>");
                        }
                        n
                    });
                    match (tr, &trn) {
                        (None, None) => {}
                        (Some(a), Some(b)) if a == b || b.split('<').next() == Some(a) => {}
                        _ => continue,
                    }
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(m) = ii
                            && m.sig.ident == name
                            && !is_test(&m.attrs)
                        {
                            return Some(Found {
                                sig: m.sig.clone(),
                                block: m.block.clone(),
                                impl_generics: Some((im.generics.clone(), (*im.self_ty).clone())),
                                line: m.sig.ident.span().start().line,
                            });
                        }
                    }
                }
                // a default method of a trait: `trait@NAME::fn`, put on the type given by `on=`
                syn::Item::Trait(t) if owner.is_some_and(|o| o.strip_prefix("trait@").is_some_and(|n| t.ident == n)) => {
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(m) = ti
                            && m.sig.ident == name
                            && let Some(b) = &m.default
                        {
                            let id = &t.ident;
                            return Some(Found {
                                sig: m.sig.clone(),
                                block: b.clone(),
                                impl_generics: Some((Default::default(), syn::parse_quote!(#id))),
                                line: m.sig.ident.span().start().line,
                            });
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) && m.ident != "tests" => {
                    if let Some((_, items)) = &m.content
                        && let Some(f) = walk(items, path)
                    {
                        return Some(f);
                    }
                }
                _ => {}
            }
        }
        None
    }
    walk(&file.items, path)
}

fn strip_path(p: &mut syn::Path) {
    // `crate::a::b::X` -> `X`; `self::X`, `super::X` likewise
    let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    if ["crate", "super", "self"].contains(&first.as_str()) && p.segments.len() > 1 {
        // keep trailing segments starting from the first capitalised one, else the last
        let segs: Vec<_> = p.segments.iter().cloned().collect();
        let k = segs
            .iter()
            .position(|s| s.ident.to_string().chars().next().is_some_and(|c| c.is_uppercase()))
            .unwrap_or(segs.len() - 1);
        p.segments = segs[k..].iter().cloned().collect();
        p.leading_colon = None;
    }
}

struct Clean;
impl VisitMut for Clean {
    // `let &p = e;` -> `let p = *e;`
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let syn::Pat::Reference(r) = &l.pat
            && let Some(init) = &mut l.init
            && init.diverge.is_none()
        {
            let e = init.expr.clone();
            init.expr = Box::new(syn::parse_quote!(*#e));
            l.pat = (*r.pat).clone();
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::Visibility::Inherited;
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        strip_path(p);
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                !["trace", "debug", "info", "warn", "error", "debug_assert", "debug_assert_eq"].contains(&n.as_str())
            }
            _ => true,
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    let vac = a.get(1).is_some_and(|x| x == "--vacuity");
    if vac {
        a.remove(1);
    }
    let (spec, src, out, outj) = (&a[1], &a[2], &a[3], &a[4]);
    match run(Path::new(spec), Path::new(src), Path::new(out), vac) {
        Ok(j) => {
            std::fs::write(outj, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        }
        Err(Lost(m)) => {
            let _ = std::fs::write(outj, serde_json::to_string_pretty(&json!({"lost_anchor": m})).unwrap());
            eprintln!("vx: lost anchor: {m}");
            std::process::exit(3);
        }
    }
}

fn run(spec: &Path, src: &Path, out: &Path, vac: bool) -> R<serde_json::Value> {
    use quote::ToTokens;
    let mut items = vec![];
    parse_spec(spec, &mut items)?;
    let mut srcs = Sources { root: src.into(), cache: BTreeMap::new() };
    let mut text = String::new();
    text.push_str("#![allow(unused, non_snake_case, non_camel_case_types, dead_code)]\nuse vstd::prelude::*;\nuse std::collections::{HashMap, HashSet};\nverus! {\n");
    let mut nprobe = 0;
    if vac {
        text.push_str("uninterp spec fn vx_any(n: int) -> bool;\n");
    }
    let mut fns = vec![];
    let mut types = vec![];
    let lcount = |t: &str| t.matches('\n').count() + 1;
    for it in items {
        match it {
            Item::Raw(r) => {
                text.push_str(&r);
                text.push('\n');
            }
            Item::Type { file, name, opts } => {
                let f = srcs.get(&file)?;
                let mut found = None;
                for i in &f.items {
                    match i {
                        syn::Item::Struct(s) if s.ident == name.as_str() => found = Some(syn::Item::Struct(s.clone())),
                        syn::Item::Enum(s) if s.ident == name.as_str() => found = Some(syn::Item::Enum(s.clone())),
                        syn::Item::Type(s) if s.ident == name.as_str() => found = Some(syn::Item::Type(s.clone())),
                        _ => {}
                    }
                }
                let Some(mut i) = found else { return lost(format!("type {name} in {file}")) };
                Clean.visit_item_mut(&mut i);
                for o in &opts {
                    if let Some(d) = o.strip_prefix("derive=") {
                        text.push_str(&format!("#[derive({d})]\n"));
                    } else if let Some(d) = o.strip_prefix("attr=") {
                        text.push_str(&format!("#[{d}]\n"));
                    } else if let Some(k) = o.strip_prefix("retype=") {
                        // field:Type=>StandIn (recorded); the field must still have that type
                        let (f, t) = k.split_once(':').unwrap();
                        let (from, to) = t.split_once("=>").unwrap();
                        let mut ok = false;
                        if let syn::Item::Struct(s) = &mut i {
                            for fld in s.fields.iter_mut() {
                                let same = fld.ident.as_ref().is_some_and(|x| x == f) || (f == "0" && fld.ident.is_none());
                                if same && fld.ty.to_token_stream().to_string().replace(' ', "") == from {
                                    fld.ty = syn::parse_str(to).unwrap();
                                    ok = true;
                                }
                            }
                        }
                        if !ok {
                            return lost(format!("type {name}: field {f} of type {from}"));
                        }
                    } else if let Some(k) = o.strip_prefix("keepfields=") {
                        // keep only the named fields of an enum's struct-like variants (recorded)
                        let ks: Vec<&str> = k.split(',').collect();
                        if let syn::Item::Enum(e) = &mut i {
                            for v in &mut e.variants {
                                if let syn::Fields::Named(n) = &mut v.fields {
                                    n.named = n.named.iter().filter(|f| ks.contains(&f.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
                                }
                            }
                        }
                    } else if let Some(k) = o.strip_prefix("keep=") {
                        // keep only the named variants of an enum; the others become `__Other` (recorded)
                        let ks: Vec<&str> = k.split(',').collect();
                        if let syn::Item::Enum(e) = &mut i {
                            e.variants = e.variants.iter().filter(|v| ks.contains(&v.ident.to_string().as_str())).cloned().collect();
                            e.variants.push(syn::parse_quote!(__Other(u64)));
                        }
                    } else if let Some(k) = o.strip_prefix("drop=") {
                        // drop the named fields / variants (recorded)
                        let ks: Vec<&str> = k.split(',').collect();
                        match &mut i {
                            syn::Item::Struct(s) => {
                                if let syn::Fields::Named(n) = &mut s.fields {
                                    n.named = n.named.iter().filter(|f| !ks.contains(&f.ident.as_ref().unwrap().to_string().as_str())).cloned().collect();
                                }
                            }
                            syn::Item::Enum(e) => {
                                e.variants = e.variants.iter().filter(|v| !ks.contains(&v.ident.to_string().as_str())).cloned().collect();
                            }
                            _ => {}
                        }
                    }
                }
                text.push_str(&print::tokens(i.to_token_stream(), &mut |_| None));
                text.push('\n');
                types.push(json!({"file": file, "name": name, "opts": opts}));
            }
            Item::Const { file, name } => {
                let f = srcs.get(&file)?;
                let mut found = None;
                for i in &f.items {
                    if let syn::Item::Const(c) = i
                        && c.ident == name.as_str()
                    {
                        found = Some(c.clone());
                    }
                    if let syn::Item::Impl(im) = i {
                        for ii in &im.items {
                            if let syn::ImplItem::Const(c) = ii
                                && c.ident == name.as_str()
                            {
                                let t = c.to_token_stream();
                                found = syn::parse2(t).ok();
                            }
                        }
                    }
                }
                let Some(c) = found else { return lost(format!("const {name} in {file}")) };
                let mut c = syn::Item::Const(c);
                Clean.visit_item_mut(&mut c);
                text.push_str(&print::tokens(c.to_token_stream(), &mut |_| None));
                text.push('\n');
            }
            Item::Fn(mut fs) => {
                if vac {
                    // reachability probes: each of these assertions must be refuted
                    let mut probe = || {
                        nprobe += 1;
                        format!("proof {{ if vx_any({nprobe}) {{ assert(false /*vx*/); }} }}\n")
                    };
                    // (an exit that can be reached has an entry that can be reached)
                    // (`noprobe`: a function without precondition whose callees all have probes of their own)
                    if fs.opts.iter().any(|o| o == "noprobe") {
                    } else if fs.opts.iter().any(|o| o == "noexit") {
                        let p = probe();
                        fs.entry = format!("{}\n{p}", fs.entry);
                    } else {
                        fs.exit.push_str(&probe());
                    }
                    let only: Option<Vec<usize>> = fs.opts.iter().find_map(|o| o.strip_prefix("probeloops=")).map(|l| l.split(',').filter_map(|x| x.parse().ok()).collect());
                    for k in 0..fs.nloops.unwrap_or(0) {
                        if only.as_ref().is_some_and(|l| !l.contains(&k)) {
                            continue;
                        }
                        let t = fs.at.entry((k, "start".to_string())).or_default();
                        *t = format!("{}{t}", probe());
                    }
                }
                let file = srcs.get(&fs.file)?;
                let Some(mut fo) = find_fn(file, &fs.path) else {
                    return lost(format!("function {} in {}", fs.path, fs.file));
                };
                let orig = fo.block.to_token_stream().to_string();
                let external = fs.opts.iter().any(|o| o == "assume");
                Clean.visit_block_mut(&mut fo.block);
                Clean.visit_signature_mut(&mut fo.sig);
                // token level substitutions (listed in DESIGN.md)
                let mut body = fo.block.to_token_stream().to_string();
                let mut sigs = fo.sig.to_token_stream().to_string();
                for (a, b) in &fs.subst {
                    let norm = |s: &str| {
                        s.parse::<proc_macro2::TokenStream>()
                            .map(|t| t.to_string())
                            .unwrap_or_else(|_| s.split_whitespace().collect::<Vec<_>>().join(" "))
                    };
                    let (an, bn) = (norm(a), norm(b));
                    if let Some(r) = replace_tokens(&body, &an, &bn) {
                        body = r;
                    } else if let Some(r) = replace_tokens(&sigs, &an, &bn) {
                        sigs = r;
                    } else {
                        return lost(format!("substitution source `{a}` in {} {}", fs.file, fs.path));
                    }
                }
                // `mut self`: a local copy that is changed
                if let Some(syn::FnArg::Receiver(r)) = fo.sig.inputs.first()
                    && r.reference.is_none()
                    && r.mutability.is_some()
                {
                    let mut sg: syn::Signature = syn::parse_str(&sigs).map_err(|e| Lost(format!("{} {}: signature: {e}", fs.file, fs.path)))?;
                    if let Some(syn::FnArg::Receiver(r)) = sg.inputs.first_mut() {
                        r.mutability = None;
                    }
                    sigs = sg.to_token_stream().to_string();
                    let b = replace_tokens(&body, "self", "__me").unwrap_or(body);
                    body = b.replacen('{', "{ let mut __me = self ;", 1);
                }
                let mut block: syn::Block =
                    syn::parse_str(&body).map_err(|e| Lost(format!("{} {}: after substitution: {e}", fs.file, fs.path)))?;
                let sig: syn::Signature =
                    syn::parse_str(&sigs).map_err(|e| Lost(format!("{} {}: signature: {e}", fs.file, fs.path)))?;
                let mut nloops = 0;
                if !external {
                    let mut d = desugar::Desugar::new(&fs);
                    d.run(&mut block)?;
                    nloops = d.nloops;
                    if let Some(n) = fs.nloops
                        && n != nloops
                    {
                        return lost(format!("{} {}: contract written for {} loops, source now has {}", fs.file, fs.path, n, nloops));
                    }
                    for n in fs.loops.keys().chain(fs.at.keys().map(|k| &k.0)) {
                        if *n >= nloops {
                            return lost(format!("{} {}: loop {} no longer exists", fs.file, fs.path, n));
                        }
                    }
                    for (k, _, _) in &d.pending_before {
                        return lost(format!("{} {}: statement `{}` not found", fs.file, fs.path, k));
                    }
                }
                let start = lcount(&text);
                let mut parts = vec![];
                if let Some((g, ty)) = &fo.impl_generics {
                    let mut ty = ty.clone();
                    if let Some(o) = fs.opts.iter().find_map(|o| o.strip_prefix("on=")) {
                        ty = syn::parse_str(o).unwrap();
                    }
                    Clean.visit_type_mut(&mut ty);
                    let wc = g.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default();
                    text.push_str(&format!("impl{} {} {} {{\n", g.to_token_stream(), ty.to_token_stream(), wc));
                }
                if let Some(o) = &fs.outline {
                    let part = desugar::outline(&mut block, o)?;
                    for (k, name) in o.cases.iter().enumerate() {
                        let f = |s: &str| s.replace("{k}", &k.to_string()).replace("{name}", name);
                        let start = lcount(&text);
                        text.push_str(&f(&o.head));
                        text.push_str("{\n");
                        if vac {
                            nprobe += 1;
                            text.push_str(&format!("proof {{ if vx_any({nprobe}) {{ assert(false /*vx*/); }} }}\n"));
                        }
                        text.push_str(&f(&o.entry));
                        let body = print::tokens(part.clone(), &mut |k| {
                            desugar::text_for(&fs, k).map(|t| t.lines().filter(|l| !l.contains("/*vx*/")).map(|l| format!("{l}\n")).collect())
                        });
                        text.push_str(&body);
                        text.push_str(&f(&o.exit));
                        text.push_str("}\n");
                        parts.push(json!({"name": name, "out_start": start, "out_end": lcount(&text)}));
                    }
                }
                if external {
                    text.push_str("#[verifier::external_body]\n");
                }
                for o in &fs.opts {
                    if let Some(r) = o.strip_prefix("attr=") {
                        text.push_str(&format!("#[{r}]\n"));
                    }
                }
                let name = fs.name.clone().unwrap_or(sig.ident.to_string());
                if let Some(s) = &fs.sig {
                    text.push_str(s);
                } else {
                    let g = sig.generics.to_token_stream().to_string();
                    let inputs = sig.inputs.to_token_stream().to_string();
                    text.push_str(&format!("fn {name}{g}({inputs})"));
                    if let syn::ReturnType::Type(_, t) = &sig.output {
                        text.push_str(&format!(" -> ({}: {})", fs.ret, t.to_token_stream()));
                    }
                    if let Some(w) = &sig.generics.where_clause {
                        text.push_str(&format!(" {}", w.to_token_stream()));
                    }
                }
                text.push('\n');
                text.push_str(&fs.spec);
                if external {
                    text.push_str("{ unimplemented!() }\n");
                } else {
                    text.push_str(&print::tokens(block.to_token_stream(), &mut |k| desugar::text_for(&fs, k)));
                }
                if fo.impl_generics.is_some() {
                    text.push_str("\n}\n");
                }
                text.push('\n');
                let end = lcount(&text);
                fns.push(json!({
                    "file": fs.file, "path": fs.path, "name": name, "line": fo.line,
                    "loops": nloops, "assumed": external, "source": orig,
                    "subst": fs.subst, "out_start": start, "out_end": end, "parts": parts,
                }));
            }
        }
    }
    text.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(out, &text).map_err(|e| Lost(e.to_string()))?;
    Ok(json!({"functions": fns, "types": types}))
}

/// replace every occurrence of `a` that does not start or end inside an identifier
fn replace_tokens(text: &str, a: &str, b: &str) -> Option<String> {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut from = 0;
    let mut hit = false;
    while let Some(k) = text[from..].find(a) {
        let at = from + k;
        let end = at + a.len();
        let before = text[..at].chars().next_back().is_some_and(word) && a.chars().next().is_some_and(word);
        let after = text[end..].chars().next().is_some_and(word) && a.chars().next_back().is_some_and(word);
        out.push_str(&text[from..at]);
        if before || after {
            out.push_str(a);
        } else {
            out.push_str(b);
            hit = true;
        }
        from = end;
    }
    out.push_str(&text[from..]);
    hit.then_some(out)
}
