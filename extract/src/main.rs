//! extract REPO_SRC CONTRACT_DIR OUT.rs OUT.json [--external a,b] [--only-modules m1,m2]
//!
//! Cuts the functions named in the contract files out of /repo's current
//! source, rewrites Rust forms the verifier does not accept into equivalent
//! ones (see DESIGN.md for the complete list of rules), splices the contracts
//! in and writes one Verus file.  OUT.json says which lines belong to which
//! function, and which functions could not be extracted.
mod inline;
mod norm;
mod print;
mod vc;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub imp: Option<ItemImpl>,
}

fn strip_cfg_test(items: Vec<Item>) -> Vec<Item> {
    items
        .into_iter()
        .filter(|i| {
            let a: &[Attribute] = match i {
                Item::Mod(m) => &m.attrs,
                Item::Fn(m) => &m.attrs,
                _ => &[],
            };
            !a.iter().any(|a| a.to_token_stream().to_string().replace(' ', "") == "#[cfg(test)]")
        })
        .collect()
}

fn ty_name(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn ty_base(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_base(&r.elem),
        _ => ty_name(t),
    }
}

fn nested_fn(b: &Block, name: &str) -> Option<ItemFn> {
    for s in &b.stmts {
        if let Stmt::Item(Item::Fn(f)) = s {
            if f.sig.ident == name {
                return Some(f.clone());
            }
        }
    }
    None
}

pub fn find_fn(items: &[Item], path: &str) -> std::result::Result<Found, String> {
    if let Some((outer, inner)) = path.split_once('/') {
        let o = find_fn(items, outer)?;
        let f = nested_fn(&o.block, inner).ok_or_else(|| format!("{} not found", path))?;
        return Ok(Found { sig: f.sig, block: *f.block, imp: None });
    }
    let (p, tr) = match path.split_once('@') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (path, None),
    };
    match p.split_once("::") {
        None => {
            for i in items {
                if let Item::Fn(f) = i {
                    if f.sig.ident == p {
                        return Ok(Found { sig: f.sig.clone(), block: (*f.block).clone(), imp: None });
                    }
                }
            }
        }
        Some((ty, m)) => {
            for i in items {
                if let Item::Impl(im) = i {
                    if ty_base(&im.self_ty) != ty {
                        continue;
                    }
                    let t = im.trait_.as_ref().map(|(_, p, _)| {
                        let s = p.segments.last().unwrap();
                        s.to_token_stream().to_string().replace(' ', "")
                    });
                    if t != tr {
                        continue;
                    }
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == m {
                                let mut h = im.clone();
                                h.items.retain(|x| !matches!(x, ImplItem::Fn(_)));
                                return Ok(Found { sig: f.sig.clone(), block: f.block.clone(), imp: Some(h) });
                            }
                        }
                    }
                }
            }
        }
    }
    Err(format!("{} not found", path))
}

/// Self::Item and the like, from the impl's associated types.
struct Assoc(BTreeMap<String, Type>);
impl visit_mut::VisitMut for Assoc {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if s.len() == 2 && s[0] == "Self" {
                if let Some(n) = self.0.get(&s[1]) {
                    *t = n.clone();
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// Drops module prefixes (`std::cmp::min` -> `min`, `crate::x::Y` -> `Y`).
struct Paths;
impl visit_mut::VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // anything that shows itself as text
        if let Some(l) = p.segments.last() {
            if l.ident == "AsRef" && l.arguments.to_token_stream().to_string().replace(' ', "") == "<str>" {
                *p = parse_quote!(VStr);
                return;
            }
        }
        let drop = ["std", "ops", "core", "crate", "super", "self", "cmp", "collections", "spatial", "zstd", "stream", "instance", "map_block", "slice", "commands", "sqlite", "io", "anyhow", "hash", "clap", "thread"];
        if p.segments.len() > 1 {
            let v: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let mut k = 0;
            while k + 1 < v.len() && v[k].arguments.is_empty() && drop.contains(&v[k].ident.to_string().as_str()) {
                k += 1;
            }
            // sqlite::Error and anyhow::Result keep a distinguishing name
            if k > 0 {
                let mut v2 = v[k..].to_vec();
                let prev = v[k - 1].ident.to_string();
                if v2.len() >= 1 && prev == "anyhow" && v2[0].ident == "Result" {
                    v2[0].ident = Ident::new("AnyResult", v2[0].ident.span());
                }
                if v2.len() >= 1 && prev == "sqlite" && v2[0].ident == "Error" {
                    v2[0].ident = Ident::new("SqliteError", v2[0].ident.span());
                }
                if v2.len() >= 1 && prev == "io" && v2[0].ident == "Error" {
                    v2[0].ident = Ident::new("IoError", v2[0].ident.span());
                }
                p.leading_colon = None;
                p.segments = v2.into_iter().collect();
            }
        }
    }
}

/// `own`: references with a named lifetime become owned values, lifetime parameters go.
struct Own;
fn no_lifetimes(g: &mut Generics) {
    g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(_))).cloned().collect();
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
}
impl visit_mut::VisitMut for Own {
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        visit_mut::visit_generics_mut(self, g);
        no_lifetimes(g);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(r) = t {
            if r.lifetime.as_ref().map_or(false, |l| l.ident != "static") {
                *t = (*r.elem).clone();
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if let PathArguments::AngleBracketed(a) = &mut s.arguments {
            a.args = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
            if a.args.is_empty() {
                s.arguments = PathArguments::None;
            }
        }
    }
}

fn vis(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn item_by_name(items: &[Item], name: &str) -> Option<Item> {
    for i in items {
        let n = match i {
            Item::Struct(s) => &s.ident,
            Item::Enum(s) => &s.ident,
            Item::Const(s) => &s.ident,
            Item::Static(s) => &s.ident,
            Item::Type(s) => &s.ident,
            Item::Trait(s) => &s.ident,
            _ => continue,
        };
        if n == name {
            return Some(i.clone());
        }
    }
    None
}

struct Emit {
    out: String,
    map: Vec<(String, usize, usize, String)>, // fn, first line, last line, loops/notes
    problems: Vec<(String, String)>,
}
impl Emit {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, con, out, js) = (&a[1], &a[2], &a[3], &a[4]);
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut alts: BTreeMap<String, String> = BTreeMap::new();
    let mut i = 5;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--external" => external.extend(a[i + 1].split(',').map(|s| s.to_string())),
            // other layouts of the proof of a function: see norm.rs
            "--alt" => alts.extend(a[i + 1].split(',').filter_map(|s| s.split_once('=')).map(|(f, l)| (f.to_string(), l.to_string()))),
            _ => panic!("unknown option"),
        }
        i += 2;
    }
    let mut names: Vec<String> = std::fs::read_dir(con).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).filter(|n| n.ends_with(".vc") || n.ends_with(".rs")).collect();
    names.sort();
    let mut e = Emit { out: String::new(), map: vec![], problems: vec![] };
    e.out.push_str("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unused_labels, unused_assignments, unreachable_code, unreachable_patterns, private_interfaces)]\n#![feature(allocator_api)]\nuse vstd::prelude::*;\nuse core::ops::{Add, Sub, Mul};\n");
    let mut mods: Vec<String> = vec![];
    let mut all_macros: Vec<(String, norm::Mac)> = vec![];
    // functions with a contract, assumed or proved
    let mut known: BTreeSet<String> = ["main", "fmt", "from", "default"].iter().map(|s| s.to_string()).collect();
    for n in &names {
        let text = std::fs::read_to_string(format!("{}/{}", con, n)).unwrap();
        let w: Vec<&str> = text.split_whitespace().collect();
        for p in w.windows(2) {
            if p[0] == "fn" {
                let last = p[1].split(|c| c == '@' || c == '<' || c == '(').next().unwrap().rsplit(|c| c == ':' || c == '/').next().unwrap();
                known.insert(last.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
            }
        }
    }
    let mut helpers = inline::Helpers::default();
    for f in walk(src) {
        if let Ok(ast) = syn::parse_file(&std::fs::read_to_string(&f).unwrap_or_default()) {
            norm::collect_macros(&ast.items, &mut all_macros);
        }
    }
    for f in walk(src) {
        if let Ok(ast) = syn::parse_file(&std::fs::read_to_string(&f).unwrap_or_default()) {
            helpers.add(&strip_cfg_test(ast.items), &known);
        }
    }
    for h in helpers.free.values_mut().chain(helpers.methods.values_mut()).flatten() {
        norm::expand_own(&mut h.block, &all_macros);
    }
    // where each source function went
    let mut place: BTreeMap<(String, String), String> = BTreeMap::new();
    for n in &names {
        if n.ends_with(".vc") {
            if let Ok(ms) = vc::parse(n, &std::fs::read_to_string(format!("{}/{}", con, n)).unwrap()) {
                for m in ms {
                    for i in &m.items {
                        if let vc::Item::Fn(f) = i {
                            place.insert((m.file.clone(), f.path.clone()), f.opts.get("as").cloned().unwrap_or(f.path.clone()));
                        }
                    }
                }
            }
        }
    }
    for n in &names {
        let text = std::fs::read_to_string(format!("{}/{}", con, n)).unwrap();
        if n.ends_with(".rs") {
            let m = n.trim_end_matches(".rs").trim_start_matches(|c: char| c.is_ascii_digit() || c == '_').to_string();
            let start = e.line();
            e.out.push_str(&format!("pub mod {} {{\nuse super::*;\nuse crate::all::*;\n{}\n}}\n", m, text));
            e.map.push((format!("{}::*", m), start, e.line(), String::new()));
            mods.push(m);
            continue;
        }
        let ms = match vc::parse(n, &text) {
            Ok(m) => m,
            Err(x) => {
                eprintln!("contract error: {}", x);
                std::process::exit(3);
            }
        };
        for m in ms {
            module(&mut e, src, &m, &external, &alts, &all_macros, &place, &helpers);
            mods.push(m.name.clone());
        }
    }
    e.out.push_str("pub mod all {\n");
    for m in &mods {
        e.out.push_str(&format!("pub use crate::{}::*;\n", m));
    }
    e.out.push_str("}\nfn main() {}\n");
    std::fs::write(out, &e.out).unwrap();
    let esc = |s: &str| format!("{:?}", s).replace("\\'", "'").replace("\\u{", "?{");
    let fns: Vec<String> = e.map.iter().map(|(f, a, b, n)| format!("{{\"fn\":{},\"first\":{},\"last\":{},\"note\":{}}}", esc(f), a, b, esc(n))).collect();
    let pr: Vec<String> = e.problems.iter().map(|(f, m)| format!("{{\"fn\":{},\"problem\":{}}}", esc(f), esc(m))).collect();
    std::fs::write(js, format!("{{\"functions\":[{}],\n\"problems\":[{}]}}\n", fns.join(",\n"), pr.join(",\n"))).unwrap();
}

fn walk(d: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(r) = std::fs::read_dir(d) {
        for e in r.flatten() {
            let p = e.path();
            if p.is_dir() {
                v.extend(walk(p.to_str().unwrap()));
            } else if p.extension().map_or(false, |x| x == "rs") {
                v.push(p.to_str().unwrap().to_string());
            }
        }
    }
    v.sort();
    v
}

fn module(e: &mut Emit, src: &str, m: &vc::Module, external: &BTreeSet<String>, alts: &BTreeMap<String, String>, macros: &[(String, norm::Mac)], place: &BTreeMap<(String, String), String>, helpers: &inline::Helpers) {
    let path = format!("{}/{}", src, m.file);
    let items = match std::fs::read_to_string(&path).map_err(|x| x.to_string()).and_then(|t| syn::parse_file(&t).map_err(|x| x.to_string())) {
        Ok(f) => strip_cfg_test(f.items),
        Err(x) => {
            e.problems.push((format!("{}::*", m.name), format!("{}: {}", m.file, x)));
            vec![]
        }
    };
    e.out.push_str(&format!("pub mod {} {{\nuse super::*;\nuse crate::all::*;\nverus! {{\n", m.name));
    for it in &m.items {
        match it {
            vc::Item::Raw(t) => {
                let s = e.line();
                e.out.push_str(t);
                e.out.push('\n');
                e.map.push((format!("{}::*", m.name), s, e.line(), String::new()));
            }
            vc::Item::Struct(n, o) | vc::Item::Other(n, o) => {
                let s = e.line();
                match item_by_name(&items, n) {
                    None => e.problems.push((format!("{}::{}", m.name, n), format!("item {} not found in {}", n, m.file))),
                    Some(i) => emit_item(e, i, o),
                }
                e.map.push((format!("{}::*", m.name), s, e.line(), String::new()));
            }
            vc::Item::Fn(f) if f.table.is_some() => {
                let key = format!("{}::{}", m.name, f.path);
                let start = e.line();
                let t = match table(src, &items, f, place) {
                    Ok(t) => t,
                    Err(x) => {
                        e.problems.push((key.clone(), x));
                        String::new()
                    }
                };
                e.out.push_str(&t);
                e.map.push((key, start, e.line(), "from the command table".into()));
            }
            vc::Item::Fn(f) => {
                let key = format!("{}::{}", m.name, f.path);
                match find_fn(&items, &f.path) {
                    Err(x) => e.problems.push((key, x)),
                    Ok(found) => {
                        let mut f = f.clone();
                        if let Some(l) = alts.get(&key) {
                            f.opts.insert("alt".into(), l.clone());
                            f.opts.entry("loop_isolation".into()).or_insert("false".into());
                            f.opts.insert("rlimit".into(), "150".into());
                        }
                        emit_fn(e, &key, found, &f, external.contains(&key), macros, helpers)
                    }
                }
            }
        }
    }
    e.out.push_str("}\n}\n");
}

fn emit_item(e: &mut Emit, i: Item, o: &BTreeMap<String, String>) {
    use visit_mut::VisitMut;
    let mut i = i;
    Paths.visit_item_mut(&mut i);
    if o.contains_key("own") {
        Own.visit_item_mut(&mut i);
    }
    let mut pre = String::new();
    if o.contains_key("external_body") {
        pre.push_str("#[verifier::external_body]\n");
    }
    if let Some(k) = o.get("reject") {
        pre.push_str(&format!("#[verifier::reject_recursive_types({})]\n", k));
    }
    match o.get("derive").map(|s| s.as_str()) {
        Some("copy") => pre.push_str("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n"),
        Some("eq") => pre.push_str("#[derive(PartialEq, Eq, Structural)]\n"),
        Some("debug") => pre.push_str("#[derive(Debug)]\n"),
        Some("clonecopy") => pre.push_str("#[derive(Clone, Copy)]\n"),
        _ => {}
    }
    let mut post = String::new();
    match &mut i {
        Item::Struct(s) => {
            if o.contains_key("clone") {
                let n = &s.ident;
                post = format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n");
            }
            s.attrs.clear();
            vis(&mut s.vis);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                vis(&mut f.vis);
            }
        }
        Item::Enum(s) => {
            if o.contains_key("clone") {
                let n = &s.ident;
                post = format!("impl Clone for {n} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n");
            }
            s.attrs.clear();
            vis(&mut s.vis);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
        }
        Item::Const(c) => {
            c.attrs.clear();
            vis(&mut c.vis);
            norm::Norm::consts(&mut c.expr, &mut c.ty);
        }
        Item::Type(c) => {
            c.attrs.clear();
            vis(&mut c.vis);
        }
        _ => {}
    }
    let mut p = print::Printer::new(&[]);
    p.tokens(i.to_token_stream());
    e.out.push_str(&pre);
    e.out.push_str(&p.out);
    e.out.push('\n');
    e.out.push_str(&post);
}

fn emit_fn(e: &mut Emit, key: &str, mut f: Found, c: &vc::FnC, external: bool, macros: &[(String, norm::Mac)], helpers: &inline::Helpers) {
    use visit_mut::VisitMut;
    let mut texts: Vec<String> = vec![];
    // associated types
    if let Some(im) = &f.imp {
        let mut a = BTreeMap::new();
        for x in &im.items {
            if let ImplItem::Type(t) = x {
                a.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        let mut v = Assoc(a);
        v.visit_signature_mut(&mut f.sig);
        v.visit_block_mut(&mut f.block);
    }
    let mut note = String::new();
    let declared = c.opts.contains_key("external");
    let res = if declared { Ok("external".to_string()) } else { norm::run(&mut f.sig, &mut f.block, c, macros, &mut texts, helpers, f.imp.as_ref().map(|i| (*i.self_ty).clone())) };
    let mut ext = external || declared;
    match res {
        Ok(n) => note = n,
        Err(x) => {
            e.problems.push((key.to_string(), x));
            ext = true;
        }
    }
    Paths.visit_signature_mut(&mut f.sig);
    Paths.visit_block_mut(&mut f.block);
    let own = c.opts.contains_key("own");
    if own {
        Own.visit_signature_mut(&mut f.sig);
        Own.visit_block_mut(&mut f.block);
    }
    let start = e.line();
    let mut head = String::new();
    // impl header
    let keep = c.opts.contains_key("keep_trait");
    if let Some(im) = &mut f.imp {
        let mut im = im.clone();
        Paths.visit_item_impl_mut(&mut im);
        if own {
            Own.visit_item_impl_mut(&mut im);
        }
        if let Some(t) = c.opts.get("self") {
            head = format!("impl {} {{\n", t);
        } else {
            let g = &im.generics;
            let (ig, _, wc) = g.split_for_impl();
            let st: Type = match &*im.self_ty {
                Type::Reference(r) => (*r.elem).clone(),
                t => t.clone(),
            };
            if keep {
                let t = &im.trait_.as_ref().unwrap().1;
                head = format!("impl {} {} for {} {} {{\n", quote!(#ig), quote!(#t), quote!(#st), quote!(#wc));
                for x in &im.items {
                    head.push_str(&x.to_token_stream().to_string());
                    head.push('\n');
                }
            } else {
                head = format!("impl {} {} {} {{\n", quote!(#ig), quote!(#st), quote!(#wc));
            }
        }
    }
    // IntoIterator for &T takes self by value of a reference
    if let (Some(im), Some(FnArg::Receiver(r))) = (&f.imp, f.sig.inputs.first_mut()) {
        if matches!(&*im.self_ty, Type::Reference(_)) && r.reference.is_none() {
            *r = parse_quote!(&self);
        }
    }
    for (n, inp) in f.sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = inp {
            if matches!(&*t.pat, Pat::Wild(_)) {
                let id = quote::format_ident!("__a{}", n);
                *t.pat = parse_quote!(#id);
            }
        }
        match inp {
            FnArg::Receiver(r) => r.attrs.clear(),
            FnArg::Typed(t) => t.attrs.clear(),
        }
    }
    if let Some(t) = c.opts.get("recv") {
        // receiver threaded as &mut self (state the std type keeps behind interior mutability)
        if t == "mut" {
            if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
                *r = parse_quote!(&mut self);
            }
        }
    }
    if let Some(t) = c.opts.get("mutarg") {
        // the same for a parameter
        for inp in f.sig.inputs.iter_mut() {
            if let FnArg::Typed(x) = inp {
                if matches!(&*x.pat, Pat::Ident(i) if i.ident == t.as_str()) {
                    if let Type::Reference(r) = &mut *x.ty {
                        r.mutability = Some(parse_quote!(mut));
                    }
                }
            }
        }
    }
    let name = c.opts.get("as").cloned().unwrap_or(f.sig.ident.to_string());
    let g = &f.sig.generics;
    let (ig, _, wc) = g.split_for_impl();
    let inputs = &f.sig.inputs;
    let gs = if c.opts.contains_key("nolife") { String::new() } else { quote!(#ig).to_string() };
    e.out.push_str(&head);
    for at in ["rlimit", "spinoff_prover", "exec_allows_no_decreases_clause", "loop_isolation"] {
        if let Some(v) = c.opts.get(at) {
            if v == "1" {
                e.out.push_str(&format!("#[verifier::{}]\n", at));
            } else {
                e.out.push_str(&format!("#[verifier::{}({})]\n", at, v));
            }
        }
    }
    if ext {
        e.out.push_str("#[verifier::external_body]\n");
    }
    let vis = if keep { "" } else { "pub " };
    let args = c.opts.get("args").map(|s| s.replace("~", " ")).unwrap_or_else(|| quote!(#inputs).to_string());
    e.out.push_str(&format!("{}fn {}{}({})", vis, name, gs, args));
    if let ReturnType::Type(_, t) = &f.sig.output {
        e.out.push_str(&format!(" -> ({}: {})", c.ret, t.to_token_stream()));
    }
    e.out.push_str(&format!(" {}\n", quote!(#wc)));
    e.out.push_str(&c.spec);
    e.out.push('\n');
    if ext {
        e.out.push_str("{ unimplemented!() }\n");
    } else {
        let mut p = print::Printer::new(&texts);
        p.tokens(f.block.to_token_stream());
        e.out.push_str(&p.out);
        e.out.push('\n');
    }
    if f.imp.is_some() {
        e.out.push_str("}\n");
    }
    e.map.push((key.to_string(), start, e.line(), note));
}

struct Row {
    name: String,
    func: String,
    verify: Option<String>,
    args: Vec<String>,
}
/// The kinds of arguments a command declares.
fn arg_kinds(e: &Expr) -> std::result::Result<Vec<String>, String> {
    let t = e.to_token_stream().to_string().replace(' ', "");
    if t == "Vec::new()" || t == "vec![]" {
        return Ok(vec![]);
    }
    let m = match e {
        Expr::Macro(m) if m.mac.path.is_ident("vec") => &m.mac,
        _ => return Err(format!("args: {}", t)),
    };
    let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|x| x.to_string())?;
    let mut out = vec![];
    for x in v {
        match x {
            Expr::Tuple(u) if u.elems.len() == 2 => {
                let k = u.elems[0].to_token_stream().to_string().replace(' ', "");
                if !k.starts_with("ArgType::") {
                    return Err(format!("args: {}", k));
                }
                out.push(k);
            }
            x => return Err(format!("args: {}", x.to_token_stream())),
        }
    }
    Ok(out)
}
/// The command table: the `new_cmd!(name, module)` lines of get_commands() and the `func` and
/// `verify_args` fields of each module's get_command().  Function pointers become indices and
/// calls through them a choice by index.
fn rows(src: &str, items: &[Item], place: &BTreeMap<(String, String), String>) -> std::result::Result<Vec<Row>, String> {
    let f = find_fn(items, "get_commands")?;
    let mut out: Vec<Row> = vec![];
    let mut mac = false;
    for s in &f.block.stmts {
        match s {
            Stmt::Local(l) => {
                let t = l.to_token_stream().to_string().replace(' ', "");
                if t != "letmutcommands=BTreeMap::new();" {
                    return Err(format!("get_commands: {}", t));
                }
            }
            Stmt::Item(Item::Macro(m)) => {
                let t = m.mac.tokens.to_string().replace(' ', "").replace('\n', "");
                if !t.contains("commands.insert($name,$module::get_command())") || mac {
                    return Err(format!("get_commands: {}", t));
                }
                mac = true;
            }
            Stmt::Macro(m) if m.mac.path.is_ident("new_cmd") => {
                let a: Vec<String> = m.mac.tokens.to_string().split(',').map(|x| x.trim().to_string()).collect();
                if a.len() != 2 {
                    return Err("new_cmd! arguments".into());
                }
                let name: LitStr = syn::parse_str(&a[0]).map_err(|x| x.to_string())?;
                let file = format!("commands/{}.rs", a[1]);
                let ast = std::fs::read_to_string(format!("{}/{}", src, file)).map_err(|x| x.to_string()).and_then(|t| syn::parse_file(&t).map_err(|x| x.to_string()))?;
                let g = find_fn(&ast.items, "get_command")?;
                let st = match g.block.stmts.last() {
                    Some(Stmt::Expr(Expr::Struct(s), None)) if g.block.stmts.len() == 1 => s.clone(),
                    _ => return Err(format!("{}: get_command is not one struct literal", file)),
                };
                let mut func = None;
                let mut verify = None;
                let mut args = None;
                for fv in &st.fields {
                    if let Member::Named(n) = &fv.member {
                        let t = fv.expr.to_token_stream().to_string().replace(' ', "");
                        let put = |t: &str| place.get(&(file.clone(), t.to_string())).cloned().ok_or(format!("{}: {} has no contract", file, t));
                        if n == "func" {
                            func = Some(put(&t)?);
                        } else if n == "args" {
                            args = Some(arg_kinds(&fv.expr)?);
                        } else if n == "verify_args" && t != "None" {
                            let t = t.strip_prefix("Some(").and_then(|t| t.strip_suffix(")")).ok_or(format!("{}: verify_args", file))?;
                            verify = Some(put(t)?);
                        }
                    }
                }
                if out.iter().any(|r| r.name == name.value()) {
                    return Err(format!("command {} twice", name.value()));
                }
                out.push(Row { name: name.value(), func: func.ok_or("no func")?, verify, args: args.ok_or("no args")? });
            }
            Stmt::Expr(e, None) if e.to_token_stream().to_string() == "commands" => {}
            s => return Err(format!("get_commands: {}", s.to_token_stream())),
        }
    }
    Ok(out)
}
fn table(src: &str, items: &[Item], c: &vc::FnC, place: &BTreeMap<(String, String), String>) -> std::result::Result<String, String> {
    let rs = rows(src, items, place)?;
    let n = &c.path;
    let mut o = String::new();
    match c.table.as_deref() {
        Some("names") => {
            o.push_str(&format!("pub open spec fn {}(i: int) -> Seq<char> {{\n", n));
            for (k, r) in rs.iter().enumerate() {
                o.push_str(&format!("if i == {} {{ {:?}@ }} else ", k, r.name));
            }
            o.push_str("{ \"\"@ }\n}\n");
            let c: Vec<String> = rs.iter().enumerate().filter(|(_, r)| r.verify.is_some()).map(|(k, _)| format!("i == {}", k)).collect();
            o.push_str(&format!("pub open spec fn {}_checked(i: int) -> bool {{ {} }}\n", n, if c.is_empty() { "false".to_string() } else { c.join(" || ") }));
        }
        Some("args") => {
            // the kinds of arguments of command i, as a sequence and as the code has them
            o.push_str(&format!("pub open spec fn {}(i: int) -> Seq<ArgType> {{\n", n));
            for (k, r) in rs.iter().enumerate() {
                o.push_str(&format!("if i == {} {{ seq![{}] }} else ", k, r.args.join(", ")));
            }
            o.push_str("{ Seq::empty() }\n}\n");
            o.push_str(&format!("pub open spec fn {}_count() -> int {{ {} }}\npub fn v_{}_count() -> (r: usize) ensures r == {}_count() {{ {} }}\n", n, rs.len(), n, n, rs.len()));
            o.push_str(&format!("pub fn v_{}(i: usize) -> (r: (&'static str, VCmd))\n    requires i < {}_count()\n    ensures r.0@ == cmd_name(i as int), kinds(r.1.args@) =~= {}(i as int)\n{{\n", n, n, n));
            for (k, r) in rs.iter().enumerate() {
                let v: Vec<String> = r.args.iter().map(|a| format!("({}, \"\")", a)).collect();
                o.push_str(&format!("if i == {} {{ return ({:?}, VCmd {{ args: vec![{}], help: \"\" }}); }}\n", k, r.name, v.join(", ")));
            }
            o.push_str("vstd::pervasive::unreached()\n}\n");
        }
        Some("lookup") => {
            o.push_str(&format!("pub fn {}(name: &str) -> (r: VCommand)\n{}\n{{\n{}\n", n, c.spec, c.entry));
            for (k, r) in rs.iter().enumerate() {
                let v = if r.verify.is_some() { format!("Some({}usize)", k) } else { "None".into() };
                o.push_str(&format!("if name == {:?} {{ return VCommand {{ func: {}, verify_args: {} }}; }}\n", r.name, k, v));
            }
            o.push_str("vstd::pervasive::unreached()\n}\n");
        }
        Some("func") => {
            o.push_str(&format!("pub fn {}(f: usize, inst: &mut InstBundle)\n{}\n{{\n{}\n", n, c.spec, c.entry));
            for (k, r) in rs.iter().enumerate() {
                o.push_str(&format!("if f == {} {{ {}(inst); return; }}\n", k, r.func));
            }
            o.push_str("rt_panic()\n}\n");
        }
        Some("verify") => {
            o.push_str(&format!("pub fn {}(f: usize, args: &InstArgs) -> (r: ArgResult)\n{}\n{{\n{}\n", n, c.spec, c.entry));
            for (k, r) in rs.iter().enumerate() {
                if let Some(v) = &r.verify {
                    o.push_str(&format!("if f == {} {{ return {}(args); }}\n", k, v));
                }
            }
            o.push_str("vstd::pervasive::unreached()\n}\n");
        }
        x => return Err(format!("table {:?}", x)),
    }
    Ok(o)
}
