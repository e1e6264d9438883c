//! Rewriting of Rust forms into the subset the verifier accepts.  Every rule
//! is listed in DESIGN.md.
use crate::vc::{FnC, LoopC};
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---- local macro_rules ------------------------------------------------------
#[derive(Clone)]
pub struct Mac {
    pub params: Vec<(String, String)>,
    pub body: TokenStream,
}
fn parse_mac(m: &ItemMacro) -> Option<(String, Mac)> {
    let name = m.ident.as_ref()?.to_string();
    let v: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    // ( pat ) => { body } [;]
    let (pat, body) = match (v.get(0), v.get(3)) {
        (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) => (a.stream(), b.stream()),
        _ => return None,
    };
    if v.len() > 5 {
        return None;
    }
    let p: Vec<TokenTree> = pat.into_iter().collect();
    let mut params = vec![];
    let mut i = 0;
    while i < p.len() {
        match &p[i] {
            TokenTree::Punct(x) if x.as_char() == '$' => {
                let n = p.get(i + 1)?.to_string();
                let k = p.get(i + 3)?.to_string();
                params.push((n, k));
                i += 4;
            }
            TokenTree::Punct(x) if x.as_char() == ',' => i += 1,
            _ => return None,
        }
    }
    Some((name, Mac { params, body }))
}
pub fn collect_macros(items: &[Item], out: &mut Vec<(String, Mac)>) {
    struct V<'a>(&'a mut Vec<(String, Mac)>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_item_macro(&mut self, m: &'b ItemMacro) {
            if let Some(x) = parse_mac(m) {
                self.0.push(x);
            }
            if m.mac.path.is_ident("thread_local") {
                statics(m.mac.tokens.clone(), self.0);
            }
        }
    }
    let mut v = V(out);
    for i in items {
        syn::visit::Visit::visit_item(&mut v, i);
    }
    for i in items {
        if let Item::Const(c) = i {
            if let Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }) = &*c.expr {
                out.push((format!("const {}", c.ident), Mac { params: vec![], body: c.expr.to_token_stream() }));
            }
        }
    }
}
/// thread_local! { static NAME: T = INIT; .. }
fn statics(ts: TokenStream, out: &mut Vec<(String, Mac)>) {
    if let Ok(f) = syn::parse2::<File>(quote!(#ts)) {
        for i in f.items {
            if let Item::Static(s) = i {
                out.push((format!("static {}", s.ident), Mac { params: vec![], body: s.expr.to_token_stream() }));
            }
        }
    }
}
fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}
fn substitute(body: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                let n = v.get(i + 1).map(|t| t.to_string()).unwrap_or_default();
                if let Some(r) = m.get(&n) {
                    out.extend(r.clone());
                }
                i += 2;
            }
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), substitute(g.stream(), m));
                ng.set_span(g.span());
                out.extend(Some(TokenTree::Group(ng)));
                i += 1;
            }
            t => {
                out.extend(Some(t.clone()));
                i += 1;
            }
        }
    }
    out
}

// ---- helpers ------------------------------------------------------------------
fn is_path(e: &Expr, n: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(n))
}
fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}
/// Bind a pattern to an expression that is a place/copy: `&p` on a reference drops both.
fn let_pat(pat: &Pat, e: Expr) -> TokenStream {
    match pat {
        Pat::Wild(_) => quote!(),
        Pat::Paren(p) => let_pat(&p.pat, e),
        Pat::Reference(r) => {
            let p = &r.pat;
            if let Expr::Reference(x) = &e {
                let i = &x.expr;
                quote!(let #p = #i;)
            } else {
                quote!(let #p = *#e;)
            }
        }
        Pat::Tuple(t) if t.elems.iter().any(|p| matches!(p, Pat::Reference(_))) => {
            // (&a, b): the components, one by one
            let mut out = quote!(let __tp = #e;);
            for (i, p) in t.elems.iter().enumerate() {
                let k = syn::Index::from(i);
                out.extend(let_pat(p, parse_quote!(__tp.#k)));
            }
            out
        }
        p => quote!(let #p = #e;),
    }
}
/// Applies a closure or function path to an argument, as an expression.
fn apply(f: &Expr, arg: Expr) -> Option<TokenStream> {
    match strip_paren(f) {
        Expr::Closure(c) => {
            let b = &c.body;
            if c.inputs.is_empty() {
                return Some(quote!(#b));
            }
            if c.inputs.len() != 1 {
                return None;
            }
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = &p {
                p = (*t.pat).clone();
            }
            let l = let_pat(&p, arg);
            Some(quote!({ #l #b }))
        }
        Expr::Path(p) => {
            let s = p.path.segments.last().unwrap().ident.to_string();
            if s == "to_string" {
                return Some(quote!((#arg).to_string()));
            }
            Some(quote!(#p(#arg)))
        }
        _ => None,
    }
}
struct Deref {
    name: String,
    to: Expr,
    bare: bool,
}
impl VisitMut for Deref {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && is_path(&u.expr, &self.name) {
                *e = self.to.clone();
                return;
            }
        }
        if is_path(e, &self.name) {
            self.bare = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// Does the method chain start from an iterator-producing call?
fn has_iter(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "next" | "next_back" | "get" | "nth" | "last") => false,
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "iter" | "into_iter" | "iter_mut" | "chars" | "split" | "splitn") || has_iter(&m.receiver),
        Expr::Range(_) => true,
        _ => false,
    }
}

/// `&x` inside a pattern: bind the reference and copy it out first thing in the arm.
struct RefPats(Vec<Ident>);
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() && r.mutability.is_none() {
                    let id = i.ident.clone();
                    let n = format_ident!("__r_{}", id);
                    self.0.push(id);
                    *p = parse_quote!(#n);
                    return;
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
fn ref_lets(ids: &[Ident]) -> Vec<Stmt> {
    ids.iter().map(|i| { let n = format_ident!("__r_{}", i); parse_quote!(let #i = *#n;) }).collect()
}
fn ref_patterns(e: &mut Expr) {
    match e {
        Expr::If(x) => {
            if let Expr::Let(l) = &mut *x.cond {
                let mut v = RefPats(vec![]);
                v.visit_pat_mut(&mut l.pat);
                let mut st = ref_lets(&v.0);
                st.extend(x.then_branch.stmts.drain(..));
                x.then_branch.stmts = st;
            }
        }
        Expr::Match(x) => {
            for a in x.arms.iter_mut() {
                if a.guard.is_some() {
                    continue;
                }
                let mut v = RefPats(vec![]);
                v.visit_pat_mut(&mut a.pat);
                if !v.0.is_empty() {
                    let st = ref_lets(&v.0);
                    let b = &a.body;
                    *a.body = parse_quote!({ #(#st)* #b });
                }
            }
        }
        _ => {}
    }
}

pub struct Norm<'a> {
    c: &'a FnC,
    macros: BTreeMap<String, Mac>,
    texts: &'a mut Vec<String>,
    nloop: usize,
    err: Option<String>,
    calls: BTreeMap<String, usize>,
    nlift: usize,
    used_loops: Vec<usize>,
}

struct MacroPass<'a> {
    macros: &'a BTreeMap<String, Mac>,
    err: Option<String>,
    fmt: usize,
    refuse: bool,
    own_only: bool,
}
/// Expands only the crate's own macros.
pub fn expand_own(b: &mut Block, macros: &[(String, Mac)]) {
    let ms: BTreeMap<String, Mac> = macros.iter().cloned().collect();
    MacroPass { macros: &ms, err: None, fmt: 0, refuse: false, own_only: true }.visit_block_mut(b);
}
impl<'a> MacroPass<'a> {
    fn expand(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        if self.own_only && !["bail", "ensure"].contains(&name.as_str()) && !self.macros.contains_key(&name) {
            return None;
        }
        match name.as_str() {
            "__vp" | "__vl" => return None,
            "assert" | "debug_assert" => {
                let a = split_commas(m.tokens.clone());
                let c = &a[0];
                if self.refuse {
                    return Some(quote!(rt_refuse(#c)));
                }
                return Some(quote!(rt_assert(#c)));
            }
            "assert_eq" => {
                let a = split_commas(m.tokens.clone());
                let (x, y) = (&a[0], &a[1]);
                return Some(quote!(rt_assert((#x) == (#y))));
            }
            "unreachable" | "panic" | "todo" => return Some(quote!(rt_panic())),
            "vec" => {
                // vec![x; n] | vec![..]
                let v: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                if let Some(k) = v.iter().position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ';')) {
                    let x: TokenStream = v[..k].iter().cloned().collect();
                    let n: TokenStream = v[k + 1..].iter().cloned().collect();
                    return Some(quote!(v_vec_fill(#x, #n)));
                }
                if v.is_empty() {
                    return Some(quote!(Vec::new()));
                }
                return None;
            }
            "format" => {
                let a = split_commas(m.tokens.clone());
                let lit = &a[0];
                let args = &a[1..];
                let f = format_ident!("v_format{}", args.len());
                self.fmt += 1;
                return Some(quote!(#f(#lit #(, #args)*)));
            }
            // what is shown is dropped
            // (its arguments are still computed)
            "print" | "println" => {
                let mut xs: Vec<TokenStream> = vec![];
                for a in split_commas(m.tokens.clone()).into_iter().skip(1) {
                    let v: Vec<TokenTree> = a.clone().into_iter().collect();
                    let named = v.len() > 2 && matches!(&v[0], TokenTree::Ident(_)) && matches!(&v[1], TokenTree::Punct(p) if p.as_char() == '=' && p.spacing() == proc_macro2::Spacing::Alone);
                    let x: TokenStream = if named { v[2..].iter().cloned().collect() } else { a };
                    if x.clone().into_iter().count() > 1 {
                        xs.push(quote!(v_display(&(#x));));
                    }
                }
                return Some(if xs.is_empty() { quote!(v_print()) } else { quote!({ #(#xs)* v_print() }) });
            }
            "bail" => return Some(quote!(return Err(v_any_error()))),
            "ensure" => {
                let a = split_commas(m.tokens.clone());
                let c = &a[0];
                return Some(quote!(if !(#c) { return Err(v_any_error()); }));
            }
            "matches" => {
                let a = split_commas(m.tokens.clone());
                if a.len() >= 2 {
                    let (x, rest) = (&a[0], &a[1]);
                    return Some(quote!(match #x { #rest => true, _ => false }));
                }
            }
            _ => {}
        }
        if let Some(mac) = self.macros.get(&name) {
            let a = split_commas(m.tokens.clone());
            if a.len() != mac.params.len() {
                self.err = Some(format!("macro {}!: {} arguments", name, a.len()));
                return None;
            }
            let mut b = BTreeMap::new();
            for ((p, k), t) in mac.params.iter().zip(a) {
                b.insert(p.clone(), if k == "expr" { quote!(#t) } else { t });
            }
            let t = substitute(mac.body.clone(), &b);
            return Some(t);
        }
        self.err = Some(format!("unknown macro {}!", name));
        None
    }
}
impl<'a> VisitMut for MacroPass<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            let t = match e {
                Expr::Macro(m) => self.expand(&m.mac),
                _ => None,
            };
            match t {
                Some(t) => match syn::parse2::<Expr>(t.clone()) {
                    Ok(x) => *e = x,
                    Err(x) => {
                        self.err = Some(format!("macro expansion: {} in {}", x, t));
                        return;
                    }
                },
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if let Stmt::Macro(sm) = &s {
                let n = sm.mac.path.segments.last().unwrap().ident.to_string();
                if n != "__vp" && n != "__vl" {
                    if let Some(t) = self.expand(&sm.mac) {
                        let semi = sm.semi_token.is_some();
                        let full = if semi { quote!({ #t ; }) } else { quote!({ #t }) };
                        match syn::parse2::<Block>(full) {
                            Ok(x) => out.extend(x.stmts),
                            Err(x) => self.err = Some(format!("macro {}!: {}", n, x)),
                        }
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

/// let f = |x| e; where f is only called: the calls become e, and the definition goes.
fn inline_closures(b: &mut Block) {
    let mut found: Vec<(usize, Ident, ExprClosure)> = vec![];
    for (k, s) in b.stmts.iter().enumerate() {
        if let Stmt::Local(l) = s {
            if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                if let Expr::Closure(c) = strip_paren(&i.expr) {
                    if i.diverge.is_none() && p.mutability.is_none() && c.inputs.iter().all(|p| matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(_))) {
                        found.push((k, p.ident.clone(), c.clone()));
                    }
                }
            }
        }
    }
    struct V<'a> {
        id: &'a Ident,
        c: &'a ExprClosure,
        ok: bool,
        apply: bool,
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(x) = e {
                if is_path(&x.func, &self.id.to_string()) && x.args.len() == self.c.inputs.len() {
                    for a in x.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    if self.apply {
                        let (ps, xs, body) = (&self.c.inputs, x.args.iter().collect::<Vec<_>>(), &self.c.body);
                        let ps = ps.iter();
                        *e = parse_quote!({ #(let #ps = #xs;)* #body });
                    }
                    return;
                }
            }
            if is_path(e, &self.id.to_string()) {
                self.ok = false;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    for (k, id, c) in found.into_iter().rev() {
        let mut v = V { id: &id, c: &c, ok: true, apply: false };
        let mut probe = b.clone();
        for s in probe.stmts.iter_mut().skip(k + 1) {
            v.visit_stmt_mut(s);
        }
        if v.ok {
            v.apply = true;
            for s in b.stmts.iter_mut().skip(k + 1) {
                v.visit_stmt_mut(s);
            }
            b.stmts.remove(k);
        }
    }
}

/// Module-level byte-string constants are replaced by their values.
struct ByteConsts<'a>(&'a BTreeMap<String, Mac>);
impl<'a> VisitMut for ByteConsts<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(m) = self.0.get(&format!("const {}", i)) {
                    *e = syn::parse2(m.body.clone()).unwrap();
                }
            }
        }
    }
}

/// Byte strings and byte characters.
/// A local variable named like a function the annotations call would hide it there: it gets another name.
fn rename_shadows(b: &mut Block, c: &FnC) {
    let mut all = format!("{} {} {}", c.spec, c.entry, c.exit);
    for l in c.loops.values() {
        for t in [&l.spec, &l.head, &l.tail, &l.before, &l.after] {
            all.push(' ');
            all.push_str(t);
        }
    }
    for (_, _, _, t) in &c.calls {
        all.push(' ');
        all.push_str(t);
    }
    // words of the annotations: called, or used as a value
    let (mut called, mut used) = (std::collections::BTreeSet::new(), std::collections::BTreeSet::new());
    let ch: Vec<char> = all.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < ch.len() {
        if !word(ch[i]) {
            i += 1;
            continue;
        }
        let st = i;
        while i < ch.len() && word(ch[i]) {
            i += 1;
        }
        let w: String = ch[st..i].iter().collect();
        let member = st > 0 && ch[st - 1] == '.' && !(st > 1 && ch[st - 2] == '.');
        if member {
            continue;
        }
        if ch.get(i) == Some(&'(') {
            called.insert(w);
        } else {
            used.insert(w);
        }
    }
    struct Bound(std::collections::BTreeSet<String>);
    impl VisitMut for Bound {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            self.0.insert(p.ident.to_string());
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    let mut v = Bound(Default::default());
    v.visit_block_mut(b);
    let names: std::collections::BTreeSet<String> = v.0.into_iter().filter(|n| called.contains(n) && !used.contains(n)).collect();
    if names.is_empty() {
        return;
    }
    struct Ren(std::collections::BTreeSet<String>);
    impl VisitMut for Ren {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if self.0.contains(&p.ident.to_string()) {
                p.ident = format_ident!("{}_v", p.ident);
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_pat_mut(self, f);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            if f.colon_token.is_none() {
                f.colon_token = Some(Default::default());
            }
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            // the name of a called function stays
            if !matches!(&*c.func, Expr::Path(_)) {
                self.visit_expr_mut(&mut c.func);
            }
            for a in c.args.iter_mut() {
                self.visit_expr_mut(a);
            }
        }
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if let Some(i) = p.path.get_ident() {
                if self.0.contains(&i.to_string()) {
                    let n = format_ident!("{}_v", i);
                    *p = parse_quote!(#n);
                }
            }
        }
    }
    Ren(names).visit_block_mut(b);
}
/// match on text: a chain of comparisons (the verifier knows no text patterns)
fn str_match(e: &mut Expr) {
    let Expr::Match(x) = e else { return };
    fn lits(p: &Pat) -> Option<Vec<Lit>> {
        match p {
            Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![l.lit.clone()]),
            Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
            Pat::Paren(p) => lits(&p.pat),
            _ => None,
        }
    }
    let n = x.arms.len();
    let mut chain: Option<Expr> = None;
    for (i, a) in x.arms.iter().enumerate().rev() {
        let b = &a.body;
        match (lits(&a.pat), &a.pat, chain.take()) {
            (None, Pat::Wild(_), None) if i + 1 == n && a.guard.is_none() => chain = Some(parse_quote!({ #b })),
            (None, Pat::Ident(p), None) if i + 1 == n && a.guard.is_none() && p.subpat.is_none() => {
                let v = &p.ident;
                chain = Some(parse_quote!({ let #v = __m; #b }))
            }
            (Some(ls), _, Some(c)) => {
                let g = a.guard.as_ref().map(|(_, g)| quote!(&& (#g)));
                chain = Some(parse_quote!(if (#(__m == #ls)||*) #g { #b } else { #c }))
            }
            _ => return,
        }
    }
    if n < 2 {
        return;
    }
    let (s, c) = (&x.expr, chain.unwrap());
    *e = parse_quote!({ let __m = #s; #c });
}
struct Lits;
impl VisitMut for Lits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Lit(l) = e {
            match &l.lit {
                Lit::Byte(b) => {
                    let v = proc_macro2::Literal::u8_suffixed(b.value());
                    *e = parse_quote!(#v);
                }
                Lit::ByteStr(b) => {
                    let v: Vec<_> = b.value().iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
                    *e = if v.is_empty() { parse_quote!(v_empty_slice()) } else { parse_quote!(v_bytes(&[#(#v),*])) };
                }
                _ => {}
            }
        }
    }
}

impl<'a> Norm<'a> {
    pub fn consts(e: &mut Expr, t: &mut Type) {
        // byte-string constants become &'static [u8]
        if let Expr::Lit(l) = e {
            if let Lit::ByteStr(b) = &l.lit {
                let v: Vec<_> = b.value().iter().map(|x| proc_macro2::Literal::u8_suffixed(*x)).collect();
                *e = parse_quote!(&[#(#v),*]);
                *t = parse_quote!(&'static [u8]);
                return;
            }
        }
        Lits.visit_expr_mut(e);
    }
    fn fail(&mut self, m: String) {
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    fn vp(&mut self, t: &str) -> TokenStream {
        if t.trim().is_empty() {
            return quote!();
        }
        self.texts.push(t.to_string());
        let k = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
        quote!(__vp!(#k);)
    }
    fn vl(&mut self, t: &str) -> TokenStream {
        self.texts.push(t.to_string());
        let k = proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1);
        quote!(__vl!(#k);)
    }
    fn loop_c(&mut self) -> (usize, LoopC) {
        let k = self.nloop;
        self.nloop += 1;
        self.used_loops.push(k);
        (k, self.c.loops.get(&k).cloned().unwrap_or_default())
    }
    /// 0: the layout on record. When an obligation fails there, the proof is tried again in other layouts of the same
    /// contract: the annotations at the end of a loop body also before each continue (1, 2), those at the end of the
    /// function also before each return (1), and loops that know what was known before them (1, 2, 3).
    fn alt(&self) -> u8 {
        self.c.opts.get("alt").and_then(|s| s.parse().ok()).unwrap_or(0)
    }
    fn tails(&mut self, b: &mut Block, t: &str) {
        if t.trim().is_empty() {
            return;
        }
        struct C(Block);
        impl VisitMut for C {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Continue(c) if c.label.is_none() => {
                        let st = &self.0.stmts;
                        *e = parse_quote!({ #(#st)* continue });
                    }
                    Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        let x = self.vp(t);
        if let Ok(bl) = parse2::<Block>(quote!({ #x })) {
            C(bl).visit_block_mut(b);
        }
    }
    fn expr(&mut self, t: TokenStream) -> Expr {
        match syn::parse2::<Expr>(t.clone()) {
            Ok(e) => e,
            Err(x) => {
                self.fail(format!("rewrite does not parse: {}: {}", x, t));
                parse_quote!(())
            }
        }
    }
    /// for PAT in EXPR BODY
    fn for_loop(&mut self, f: ExprForLoop) -> Expr {
        let (k, lc) = self.loop_c();
        let mut body = f.body;
        let src = strip_paren(&f.expr).clone();
        let kind = lc.kind.clone().unwrap_or_else(|| match &src {
            Expr::Range(_) => "range".into(),
            Expr::MethodCall(m) if m.method == "rev" => "rev".into(),
            Expr::MethodCall(m) if m.method == "iter" => {
                if matches!(&*f.pat, Pat::Tuple(_)) { "map".into() } else { "vec".into() }
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                if matches!(&*f.pat, Pat::Tuple(_)) { "mutmap".into() } else { "mutvec".into() }
            }
            Expr::Reference(_) => {
                if matches!(&*f.pat, Pat::Tuple(_)) { "map".into() } else { "vec".into() }
            }
            Expr::Call(_) => "iter".into(),
            _ => {
                if matches!(&*f.pat, Pat::Tuple(_)) { "map".into() } else { "val".into() }
            }
        });
        let (s, i, q, en) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__q{}", k), format_ident!("__e{}", k));
        let before = self.vp(&lc.before);
        let after = self.vp(&lc.after);
        let head = self.vp(&lc.head);
        let tail = self.vp(&lc.tail);
        let spec = self.vl(&lc.spec);
        let pat = &*f.pat;
        let unref = |e: &Expr| -> Expr {
            match strip_paren(e) {
                Expr::Reference(r) => (*r.expr).clone(),
                Expr::MethodCall(m) if m.method == "iter" => (*m.receiver).clone(),
                x => x.clone(),
            }
        };
        let lvl = self.alt();
        let tail_text = if lvl == 1 || lvl == 2 { lc.tail.clone() } else { String::new() };
        let t = match kind.as_str() {
            "range" => {
                let r = match &src {
                    Expr::Range(r) => r,
                    _ => {
                        self.fail("range loop expected".into());
                        return parse_quote!(());
                    }
                };
                let (lo, hi) = match (&r.start, &r.end) {
                    (Some(a), Some(b)) => ((**a).clone(), (**b).clone()),
                    _ => {
                        self.fail("open range".into());
                        return parse_quote!(());
                    }
                };
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let cmp = if matches!(r.limits, RangeLimits::Closed(_)) { quote!(<=) } else { quote!(<) };
                let l = let_pat(pat, parse_quote!(#i));
                let (lo_l, q2) = (quote!(let mut #i = #lo;), quote!(let #en = #hi;));
                let bind = if matches!(pat, Pat::Wild(_)) { quote!() } else { let p = pat; quote!(let #p = #i;) };
                let _ = l;
                quote!({ #lo_l #q2 #before while #i #cmp #en { #spec #bind #i = #i + 1; #head #(#st)* #tail } #after })
            }
            "incl" => {
                // a ..= b where b may be the largest value
                let r = match &src {
                    Expr::Range(r) => r.clone(),
                    _ => {
                        self.fail("range loop expected".into());
                        return parse_quote!(());
                    }
                };
                let (lo, hi) = ((*r.start.unwrap()).clone(), (*r.end.unwrap()).clone());
                if !matches!(r.limits, RangeLimits::Closed(_)) {
                    self.fail("inclusive range expected".into());
                }
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let d = format_ident!("__d{}", k);
                // __c: the next value, as an integer
                let gh = self.vp(&format!("let ghost mut __c{} = __i{} as int;", k, k));
                let gi = self.vp(&format!("proof {{ __c{} = __c{} + 1; }}", k, k));
                quote!({ let mut #i = #lo; let #en = #hi; let mut #d = !(#i <= #en); #gh #before while !#d { #spec let #pat = #i; #gi if #i == #en { #d = true; } else { #i = #i + 1; } #head #(#st)* #tail } #after })
            }
            "rev" => {
                let r = match &src {
                    Expr::MethodCall(m) => match strip_paren(&m.receiver) {
                        Expr::Range(r) => r.clone(),
                        _ => {
                            self.fail("reverse loop".into());
                            return parse_quote!(());
                        }
                    },
                    _ => {
                        self.fail("reverse loop".into());
                        return parse_quote!(());
                    }
                };
                let (lo, hi) = ((*r.start.unwrap()).clone(), (*r.end.unwrap()).clone());
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    self.fail("reverse inclusive range".into());
                }
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                quote!({ let #en = #lo; let mut #i = #hi; #before while #i > #en { #spec #i = #i - 1; let #pat = #i; #head #(#st)* #tail } #after })
            }
            "vec" | "val" => {
                // references to the elements where the contract speaks of their (copied) values
                let by_ref = kind == "val" && matches!(strip_paren(&src), Expr::Reference(_) | Expr::MethodCall(_)) && match strip_paren(&src) { Expr::MethodCall(m) => m.method == "iter", _ => true };
                let mut pat = pat.clone();
                // copies of the elements where the contract goes through references
                let mut src = src;
                let mut by_val = kind == "val";
                if kind == "vec" {
                    if let Expr::MethodCall(m) = strip_paren(&src).clone() {
                        if matches!(m.method.to_string().as_str(), "copied" | "cloned") && m.args.is_empty() {
                            src = (*m.receiver).clone();
                            by_val = true;
                        }
                    }
                }
                if by_ref {
                    match &pat {
                        Pat::Ident(p) => {
                            let id = &p.ident;
                            Deref { name: id.to_string(), to: parse_quote!(#id), bare: false }.visit_block_mut(&mut body);
                        }
                        Pat::Reference(r) => pat = (*r.pat).clone(),
                        _ => {}
                    }
                }
                let pat = &pat;
                let x = if kind == "vec" || by_ref { unref(&src) } else { src.clone() };
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let l = if !by_val { let_pat(pat, parse_quote!(&#s[#i])) } else { let_pat(pat, parse_quote!(#s[#i])) };
                let bs = if kind == "vec" || by_ref { quote!(let #s = &#x;) } else { quote!(let #s = #x;) };
                quote!({ #bs let mut #i: usize = 0; #before while #i < #s.len() { #spec #l #i = #i + 1; #head #(#st)* #tail } #after })
            }
            "map" => {
                let x = unref(&src);
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let (kk, vv) = (format_ident!("__k{}", k), format_ident!("__v{}", k));
                let (p0, p1) = match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => {
                        self.fail("map loop pattern".into());
                        return parse_quote!(());
                    }
                };
                let (l0, l1) = (let_pat(&p0, parse_quote!(#kk)), let_pat(&p1, parse_quote!(#vv)));
                quote!({ let #s = &#x; let mut #i: usize = 0; #before while #i < #s.v_len() { #spec let (#kk, #vv) = #s.v_entry(#i); #l0 #l1 #i = #i + 1; #head #(#st)* #tail } #after })
            }
            "mutvec" => {
                let x = unref(&src);
                let id = match pat {
                    Pat::Ident(p) => p.ident.to_string(),
                    _ => {
                        self.fail("mutable loop pattern".into());
                        return parse_quote!(());
                    }
                };
                let mut d = Deref { name: id, to: parse_quote!(#x[#q]), bare: false };
                d.visit_block_mut(&mut body);
                if d.bare {
                    self.fail("element reference used other than by *".into());
                }
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                quote!({ let mut #i: usize = 0; #before while #i < #x.len() { #spec let #q = #i; #i = #i + 1; #head #(#st)* #tail } #after })
            }
            "mutmap" => {
                let x = unref(&src);
                let (p0, p1) = match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => {
                        self.fail("map loop pattern".into());
                        return parse_quote!(());
                    }
                };
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let kk = format_ident!("__k{}", k);
                let l0 = let_pat(&p0, parse_quote!(&#kk));
                quote!({ let #s = #x.v_keys(); let mut #i: usize = 0; #before while #i < #s.len() { #spec let #kk = #s[#i]; #l0 #i = #i + 1; #head let #p1 = #x.v_get_mut(#kk); #(#st)* #tail } #after })
            }
            "iter" | "into" => {
                let e2 = if kind == "into" { let u = unref(&src); quote!(#u.into_iter()) } else { quote!(#src) };
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let it = format_ident!("__t{}", k);
                let x = format_ident!("__x{}", k);
                quote!({ let mut #it = #e2; #before loop { #spec let #x = match #it.next() { Some(v) => v, None => { break; } }; let #pat = #x; #head #(#st)* #tail } #after })
            }
            "rows" => {
                // db.iter_rows().enumerate(): listing of all rows, with their index
                let (p0, p1) = match pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => {
                        self.fail("row loop pattern".into());
                        return parse_quote!(());
                    }
                };
                let inner = match &src {
                    Expr::MethodCall(m) if m.method == "enumerate" => (*m.receiver).clone(),
                    _ => {
                        self.fail("row loop source".into());
                        return parse_quote!(());
                    }
                };
                visit_block(self, &mut body);
                self.tails(&mut body, &tail_text);
                let st = &body.stmts;
                let it = format_ident!("__t{}", k);
                let x = format_ident!("__x{}", k);
                quote!({ let mut #it = #inner; let mut #i: usize = 0; #before loop { #spec let #x = match #it.next() { Some(v) => v, None => { break; } }; let #p0 = #i; v_no_wrap(#i); #i = #i + 1; let #p1 = #x; #head #(#st)* #tail } #after })
            }
            x => {
                self.fail(format!("loop kind {}", x));
                quote!(())
            }
        };
        let mut e = self.expr(t);
        // the source expression parts were cloned before normalisation: normalise the let lines
        if let Expr::Block(b) = &mut e {
            for st in b.block.stmts.iter_mut() {
                if let Stmt::Local(l) = st {
                    if let Some(i) = &mut l.init {
                        visit_expr(self, &mut i.expr);
                    }
                }
            }
        }
        e
    }
    /// Iterator chains that become loops building a value.
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m.clone(),
            _ => return None,
        };
        let name = m.method.to_string();
        let it = |e: &Expr| -> Option<Expr> {
            match strip_paren(e) {
                Expr::MethodCall(x) if x.method == "iter" => Some((*x.receiver).clone()),
                _ => None,
            }
        };
        match name.as_str() {
            // v.sort_by_key(|k| e): the keys of all elements first, then the sort
            "sort_unstable_by_key" | "sort_by_key" | "sort_by_cached_key" => {
                let src = m.receiver.clone();
                let f = m.args[0].clone();
                let (k, lc) = self.loop_c();
                let (s, i, o) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__o{}", k));
                let (before, after, head, tail, spec) = (self.vp(&lc.before), self.vp(&lc.after), self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let y = apply(&f, parse_quote!(&#s[#i]))?;
                let mut y = self.expr(y);
                visit_expr(self, &mut y);
                Some(self.expr(quote!({ let #s = &mut #src; let mut #o: Vec<i64> = Vec::new(); let mut #i: usize = 0; #before while #i < #s.len() { #spec #head let __y = #y; #o.push(__y); #i = #i + 1; #tail } v_sort_with(#s, &#o); #after })))
            }
            "collect" => {
                let inner = match strip_paren(&m.receiver) {
                    Expr::MethodCall(x) if x.method == "map" || x.method == "filter_map" => x.clone(),
                    _ => return None,
                };
                let src = it(&inner.receiver)?;
                let f = inner.args[0].clone();
                let (k, lc) = self.loop_c();
                let (s, i, o) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__o{}", k));
                let (before, after, head, tail, spec) = (self.vp(&lc.before), self.vp(&lc.after), self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let y = apply(&f, parse_quote!(&#s[#i]))?;
                let y = {
                    let mut y = self.expr(y);
                    visit_expr(self, &mut y);
                    y
                };
                let push = if inner.method == "map" {
                    quote!(let __y = #y; #o.push(__y);)
                } else {
                    quote!(let __y = #y; if let Some(__z) = __y { #o.push(__z); })
                };
                let mut sx = src;
                visit_expr(self, &mut sx);
                Some(self.expr(quote!({ let #s = &#sx; let mut #o = Vec::new(); let mut #i: usize = 0; #before while #i < #s.len() { #spec #head #push #i = #i + 1; #tail } #after #o })))
            }
            "any" | "all" | "any_tail" | "all_tail" => {
                let (src, by_val): (Expr, bool) = match strip_paren(&m.receiver) {
                    Expr::MethodCall(x) if x.method == "chars" => {
                        let r = &x.receiver;
                        (parse_quote!(#r.v_chars()), true)
                    }
                    r => (it(r)?, false),
                };
                let f = m.args[0].clone();
                let (k, lc) = self.loop_c();
                let (s, i, o) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__o{}", k));
                let (before, after, head, tail, spec) = (self.vp(&lc.before), self.vp(&lc.after), self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let end0 = name.ends_with("_tail") && !lc.spec.contains(&o.to_string());
                let at = if end0 { format_ident!("__x") } else { i.clone() };
                let y = apply(&f, if by_val { parse_quote!(#s[#at]) } else { parse_quote!(&#s[#at]) })?;
                let y = {
                    let mut y = self.expr(y);
                    visit_expr(self, &mut y);
                    y
                };
                let mut sx = src;
                visit_expr(self, &mut sx);
                // a search that is the value of the function, described as a loop that returns
                let (name, end) = match name.strip_suffix("_tail") {
                    Some(n) => (n.to_string(), true),
                    None => (name, false),
                };
                if end && !lc.spec.contains(&o.to_string()) {
                    let (c, now, then) = if name == "all" { (quote!(!(#y)), quote!(false), quote!(true)) } else { (y.to_token_stream(), quote!(true), quote!(false)) };
                    return Some(self.expr(quote!({ { let #s = &#sx; let mut #i: usize = 0; #before while #i < #s.len() { #spec let __x = #i; #i = #i + 1; #head if #c { return #now; } #tail } #after } #then })));
                }
                // the contract describes the search in one of its two forms: all(c) is !any(!c)
                let (ex, fa) = (lc.spec.contains(&format!("{} == exists", o)), lc.spec.contains(&format!("{} == forall", o)) || lc.spec.contains(&format!("{} ==> forall", o)));
                if (name == "all" && ex && !fa) || (name == "any" && fa && !ex) {
                    let (init, cond) = if name == "all" { (quote!(false), quote!(!#o)) } else { (quote!(true), quote!(#o)) };
                    return Some(self.expr(quote!(!{ let #s = &#sx; let mut #o = #init; let mut #i: usize = 0; #before while #cond && #i < #s.len() { #spec #head let __y = #y; #o = !__y; #i = #i + 1; #tail } #after #o })));
                }
                let (init, cond) = if name == "any" { (quote!(false), quote!(!#o)) } else { (quote!(true), quote!(#o)) };
                Some(self.expr(quote!({ let #s = &#sx; let mut #o = #init; let mut #i: usize = 0; #before while #cond && #i < #s.len() { #spec #head let __y = #y; #o = __y; #i = #i + 1; #tail } #after #o })))
            }
            "find_map" | "count" => {
                // over a map: .iter().find_map(|(p, q)| ..)  /  .iter().filter(|&(p, q)| c).count()
                let (src, f) = if name == "find_map" {
                    (it(&m.receiver)?, m.args[0].clone())
                } else {
                    match strip_paren(&m.receiver) {
                        Expr::MethodCall(x) if x.method == "filter" => (it(&x.receiver)?, x.args[0].clone()),
                        _ => return None,
                    }
                };
                let (k, lc) = self.loop_c();
                let (s, i, o) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__o{}", k));
                let (kk, vv) = (format_ident!("__k{}", k), format_ident!("__v{}", k));
                let (before, after, head, tail, spec) = (self.vp(&lc.before), self.vp(&lc.after), self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let c = match strip_paren(&f) {
                    Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
                    _ => return None,
                };
                let mut p = c.inputs[0].clone();
                if let Pat::Reference(r) = &p {
                    p = (*r.pat).clone();
                }
                let (p0, p1) = match &p {
                    Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                    _ => return None,
                };
                let (l0, l1) = (let_pat(&p0, parse_quote!(#kk)), let_pat(&p1, parse_quote!(#vv)));
                let mut b = (*c.body).clone();
                visit_expr(self, &mut b);
                let mut sx = src;
                visit_expr(self, &mut sx);
                if name == "find_map" {
                    Some(self.expr(quote!({ let #s = &#sx; let mut #o = None; let mut #i: usize = 0; #before while #o.is_none() && #i < #s.v_len() { #spec let (#kk, #vv) = #s.v_entry(#i); #l0 #l1 #i = #i + 1; #head #o = #b; #tail } #after #o })))
                } else {
                    Some(self.expr(quote!({ let #s = &#sx; let mut #o: usize = 0; let mut #i: usize = 0; #before while #i < #s.v_len() { #spec let (#kk, #vv) = #s.v_entry(#i); #l0 #l1 #i = #i + 1; #head if #b { #o = #o + 1; } #tail } #after #o })))
                }
            }
            _ => None,
        }
    }
    /// Option combinators, Vec3::map, slice ranges, renamed methods.
    fn method(&mut self, m: &ExprMethodCall) -> Option<TokenStream> {
        let name = m.method.to_string();
        let r = &m.receiver;
        let a0 = m.args.first();
        let vecmap: Vec<&str> = self.c.opts.get("vecmap").map(|s| s.split(',').collect()).unwrap_or_default();
        match name.as_str() {
            "map" if vecmap.contains(&text(&**r).replace(' ', "").as_str()) || matches!(strip_paren(r), Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "min" || n == "max")) => {
                let c = match strip_paren(a0?) {
                    Expr::Closure(c) => c.clone(),
                    _ => return None,
                };
                let (p, b) = (&c.inputs[0], &c.body);
                Some(quote!({ let __v = #r; Vec3 { x: { let #p = __v.x; #b }, y: { let #p = __v.y; #b }, z: { let #p = __v.z; #b } } }))
            }
            // on the Result of a parse
            "map" if is_parse(r) => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Ok(__x) => Ok(#b), Err(__e) => Err(__e) }))
            }
            "and_then" if is_parse(r) => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Ok(__x) => #b, Err(__e) => Err(__e) }))
            }
            "map" if !has_iter(r) => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => Some(#b), None => None }))
            }
            "and_then" if !has_iter(r) => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => #b, None => None }))
            }
            "filter" if !has_iter(r) => {
                let b = apply(a0?, parse_quote!(&__x))?;
                Some(quote!(match #r { Some(__x) => { let __b = #b; if __b { Some(__x) } else { None } }, None => None }))
            }
            "or_else" if matches!(strip_paren(a0?), Expr::Closure(c) if c.inputs.is_empty()) => {
                let b = match strip_paren(a0?) {
                    Expr::Closure(c) => c.body.clone(),
                    _ => return None,
                };
                Some(quote!(match #r { Some(__x) => Some(__x), None => #b }))
            }
            "is_some_and" => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => #b, None => false }))
            }
            "is_none_or" => {
                let b = apply(a0?, parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => #b, None => true }))
            }
            "map_or_else" if !has_iter(r) && m.args.len() == 2 => {
                let d = match strip_paren(&m.args[0]) {
                    Expr::Closure(c) if c.inputs.is_empty() => c.body.clone(),
                    _ => return None,
                };
                let b = apply(&m.args[1], parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => #b, None => #d }))
            }
            "flatten" if !has_iter(r) => Some(quote!(match #r { Some(__x) => __x, None => None })),
            "map_or" if !has_iter(r) && m.args.len() == 2 => {
                let d = &m.args[0];
                let b = apply(&m.args[1], parse_quote!(__x))?;
                Some(quote!(match #r { Some(__x) => #b, None => #d }))
            }
            // on a Result
            "unwrap_or_else" if matches!(strip_paren(a0?), Expr::Closure(c) if c.inputs.len() == 1) => {
                let c = match strip_paren(a0?) {
                    Expr::Closure(c) => c.clone(),
                    _ => return None,
                };
                let (p, b) = (&c.inputs[0], &c.body);
                Some(quote!(match #r { Ok(__x) => __x, Err(#p) => #b }))
            }
            "unwrap_or_else" => {
                let c = match strip_paren(a0?) {
                    Expr::Closure(c) if c.inputs.is_empty() => c.clone(),
                    _ => return None,
                };
                let b = &c.body;
                Some(quote!(match #r { Some(__x) => __x, None => #b }))
            }
            // (a..b).contains(&x) and (a..=b).contains(&x) on numbers
            "contains" => {
                let (Expr::Range(g), Expr::Reference(x)) = (strip_paren(r), strip_paren(a0?)) else { return None };
                let (lo, hi, x) = (g.start.as_ref(), g.end.as_ref(), &x.expr);
                let up = hi.map(|h| match g.limits {
                    syn::RangeLimits::HalfOpen(_) => quote!(__x < (#h)),
                    _ => quote!(__x <= (#h)),
                });
                match (lo, up) {
                    (Some(l), Some(u)) => Some(quote!({ let __x = #x; (#l) <= __x && #u })),
                    (Some(l), None) => Some(quote!({ let __x = #x; (#l) <= __x })),
                    (None, Some(u)) => Some(quote!({ let __x = #x; #u })),
                    _ => None,
                }
            }
            // lazily initialised statics: the initial value, read only
            "with" => {
                let init = self.macros.get(&format!("static {}", text(&**r)))?.body.clone();
                let mut init: Expr = syn::parse2(init).ok()?;
                ByteConsts(&self.macros).visit_expr_mut(&mut init);
                Lits.visit_expr_mut(&mut init);
                let c = match strip_paren(a0?) {
                    Expr::Closure(c) => c.clone(),
                    _ => return None,
                };
                let (p, b) = (&c.inputs[0], &c.body);
                Some(quote!({ let #p = &#init; #b }))
            }
            "unwrap_or" if text(a0?).replace(' ', "") == "&Vec::new()" => Some(quote!(match #r { Some(__x) => __x, None => &Vec::new() })),
            "map_err" => None,
            _ => None,
        }
    }
}

/// X.any(..)/X.all(..) as the value of the function
fn mark_search(e: &mut Expr) {
    match e {
        Expr::Return(r) => {
            if let Some(x) = &mut r.expr {
                mark_search(x);
            }
        }
        Expr::MethodCall(m) if m.method == "any" || m.method == "all" => m.method = format_ident!("{}_tail", m.method),
        _ => {}
    }
}
fn is_parse(r: &Expr) -> bool {
    matches!(strip_paren(r), Expr::MethodCall(m) if m.method == "parse" || m.method == "v_parse")
}
fn visit_block(n: &mut Norm, b: &mut Block) {
    n.visit_block_mut(b);
}
fn visit_expr(n: &mut Norm, e: &mut Expr) {
    n.visit_expr_mut(e);
}

/// Methods whose std form is replaced by a prelude function of the same meaning.
const RENAME: [(&str, &str); 23] = [
    ("set_len", "v_set_len"),
    ("parse", "v_parse"),
    ("find", "v_find"),
    ("as_bytes", "v_as_bytes"),
    ("extend", "v_extend"),
    ("clone", "v_clone"),
    ("to_vec", "v_to_vec"),
    ("to_owned", "v_to_vec"),
    ("as_deref", "v_as_deref"),
    ("transpose", "v_transpose"),
    ("extend_from_slice", "v_extend"),
    ("fill", "v_fill"),
    ("contains", "v_contains"),
    ("div_euclid", "v_div_euclid"),
    ("rem_euclid", "v_rem_euclid"),
    ("saturating_add", "v_saturating_add"),
    ("starts_with", "v_starts_with"),
    ("ends_with", "v_ends_with"),
    ("as_ref", "v_as_ref"),
    ("as_mut", "v_as_mut"),
    ("remove", "v_remove"),
    ("shrink_to_fit", "v_shrink"),
    ("to_string", "v_to_string"),
];

impl<'a> VisitMut for Norm<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        ref_patterns(e);
        str_match(e);
        // loops first (pre-order numbering)
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(f);
                return;
            }
            Expr::While(w) => {
                let (_, lc) = self.loop_c();
                let (head, tail, spec) = (self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let (before, after) = (self.vp(&lc.before), self.vp(&lc.after));
                let mut w = w.clone();
                if let Expr::Let(l) = &*w.cond {
                    // while let P = E { B }  is  loop { match E { P => B, _ => break } }
                    let (pat, mut ex) = (l.pat.clone(), (*l.expr).clone());
                    visit_expr(self, &mut ex);
                    visit_block(self, &mut w.body);
                    let st = &w.body.stmts;
                    *e = self.expr(quote!({ #before loop { #spec #head match #ex { #pat => { #(#st)* #tail } _ => { break; } } } #after }));
                    return;
                }
                visit_expr(self, &mut w.cond);
                visit_block(self, &mut w.body);
                let (c, st) = (&w.cond, &w.body.stmts);
                *e = self.expr(quote!({ #before while #c { #spec #head #(#st)* #tail } #after }));
                return;
            }
            Expr::Loop(w) => {
                let (_, lc) = self.loop_c();
                let (head, tail, spec) = (self.vp(&lc.head), self.vp(&lc.tail), self.vl(&lc.spec));
                let (before, after) = (self.vp(&lc.before), self.vp(&lc.after));
                let mut w = w.clone();
                visit_block(self, &mut w.body);
                let st = &w.body.stmts;
                *e = self.expr(quote!({ #before loop { #spec #head #(#st)* #tail } #after }));
                return;
            }
            _ => {}
        }
        if let Some(x) = self.chain(e) {
            *e = x;
            return;
        }
        if let Expr::MethodCall(m) = e {
            if let Some(t) = self.method(&m.clone()) {
                let mut x = self.expr(t);
                visit_expr(self, &mut x);
                *e = x;
                return;
            }
        }
        // a[i ..= j].clone_from_slice(&b[k ..= l])
        if let Expr::MethodCall(m) = e {
            if m.method == "clone_from_slice" || m.method == "copy_from_slice" {
                if let (Expr::Index(d), Some(Expr::Reference(s))) = (strip_paren(&m.receiver), m.args.first()) {
                    if let (Expr::Range(dr), Expr::Index(si)) = (strip_paren(&d.index), strip_paren(&s.expr)) {
                        if let Expr::Range(sr) = strip_paren(&si.index) {
                            if let (Some(a), Some(b), Some(x), Some(y)) = (&dr.start, &dr.end, &sr.start, &sr.end) {
                                let one = |r: &ExprRange| if matches!(r.limits, RangeLimits::Closed(_)) { quote!(+ 1) } else { quote!() };
                                let (o1, o2) = (one(dr), one(sr));
                                let (dst, srcv) = (&d.expr, &si.expr);
                                let mut x: Expr = parse_quote!(v_copy_range(&mut #dst, #a, (#b) #o1, &#srcv, #x, (#y) #o2));
                                visit_mut::visit_expr_mut(self, &mut x);
                                *e = x;
                                return;
                            }
                        }
                    }
                }
                self.fail("clone_from_slice form".into());
            }
        }
        // immediately invoked closures
        if let Expr::Call(c) = e {
            if let Expr::Closure(cl) = strip_paren(&c.func) {
                let k = self.nlift;
                self.nlift += 1;
                match self.c.lifts.get(&k).cloned() {
                    Some(t) => {
                        let _ = cl;
                        match syn::parse_str::<Expr>(&t) {
                            Ok(x) => {
                                *e = x;
                                return;
                            }
                            Err(x) => self.fail(format!("lift: {}", x)),
                        }
                    }
                    None => self.fail("immediately invoked closure".into()),
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
                if n == "split" || n == "splitn" {
                    // by equality with one byte
                    if let Some(Expr::Closure(c)) = m.args.last().map(strip_paren).cloned().as_ref() {
                        let r = &m.receiver;
                        let r: Expr = if matches!(strip_paren(r), Expr::Index(_)) { parse_quote!(&#r) } else { (**r).clone() };
                        let p = match &c.inputs[0] {
                            Pat::Reference(r) => (*r.pat).clone(),
                            p => p.clone(),
                        };
                        let b = &c.body;
                        let _ = (&p, b);
                        let seps = eq_consts(b, &text(&p));
                        match seps {
                            Some(v) if n == "split" && v.len() == 1 => {
                                let s = &v[0];
                                *e = parse_quote!(v_split(#r, #s));
                            }
                            Some(v) if n == "split" && v.len() == 2 => {
                                let (s, t) = (&v[0], &v[1]);
                                *e = parse_quote!(v_split2(#r, #s, #t));
                            }
                            Some(v) if n == "splitn" && v.len() == 1 => {
                                let (k, s) = (&m.args[0], &v[0]);
                                *e = parse_quote!(v_splitn(#r, #k, #s));
                            }
                            _ => self.fail("split predicate".into()),
                        }
                    }
                }
        }
        // call() == Some(x)
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_)) {
                if let (Expr::MethodCall(l), Expr::Call(r)) = (strip_paren(&b.left), strip_paren(&b.right)) {
                    if is_path(&r.func, "Some") && r.args.len() == 1 {
                        let (l, x) = (l, &r.args[0]);
                        *e = parse_quote!((match #l { Some(__x) => __x == #x, None => false }));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) if c.args.len() == 1 && text(&c.func).replace(' ', "") == "Vec::with_capacity" => {
                let x = &c.args[0];
                *e = if self.c.opts.contains_key("alloc") { parse_quote!(v_allocate(#x)) } else { parse_quote!(v_with_capacity(#x)) };
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                // endianness type arguments
                if let Some(t) = &m.turbofish {
                    let s = text(&t.args);
                    if s.contains("BigEndian") {
                        m.turbofish = None;
                    }
                }
                if n == "next_back" {
                    if let Expr::MethodCall(x) = strip_paren(&m.receiver) {
                        if x.method == "iter" {
                            let r = &x.receiver;
                            *e = parse_quote!(#r.v_last());
                            return;
                        }
                    }
                }
                for (a, b) in RENAME.iter() {
                    if n == *a {
                        m.method = Ident::new(b, Span::call_site());
                    }
                }
            }
            // the status is shared state: see the option `mutarg`
            Expr::Reference(r) if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Field(f) if text(&f.member) == "status") => {
                let x = r.expr.clone();
                *e = self.expr(quote!(&mut #x));
            }
            Expr::Reference(r) if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Array(a) if a.elems.is_empty()) => {
                // &[]
                *e = parse_quote!(v_empty_slice());
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                // &x[a..]
                if let Expr::Index(i) = strip_paren(&r.expr) {
                    if let Expr::Range(g) = strip_paren(&i.index) {
                        let b = &i.expr;
                        match (&g.start, &g.end, matches!(g.limits, RangeLimits::Closed(_))) {
                            (Some(a), None, _) => *e = parse_quote!(#b.v_from(#a)),
                            (None, Some(z), false) => *e = parse_quote!(#b.v_to(#z)),
                            (Some(a), Some(z), false) => *e = parse_quote!(#b.v_range(#a, #z)),
                            _ => self.fail("slice range".into()),
                        }
                    }
                }
            }
            Expr::Reference(r) if matches!(strip_paren(&r.expr), Expr::Index(_)) => {
                // &mut x[..z]
                if let Expr::Index(i) = strip_paren(&r.expr) {
                    if let Expr::Range(g) = strip_paren(&i.index) {
                        let b = &i.expr;
                        match (&g.start, &g.end, matches!(g.limits, RangeLimits::Closed(_))) {
                            (None, Some(z), false) => *e = parse_quote!(v_to_mut(&mut #b, #z)),
                            (None, None, _) => *e = parse_quote!(v_all_mut(&mut #b)),
                            _ => self.fail("slice range".into()),
                        }
                    }
                }
            }
            Expr::Index(i) => {
                if let Expr::Range(g) = strip_paren(&i.index) {
                    let b = &i.expr;
                    if let (Some(a), None) = (&g.start, &g.end) {
                        *e = parse_quote!((*#b.v_from(#a)));
                    }
                }
            }
            Expr::Closure(_) => {
                if !self.c.opts.contains_key("closures") {
                    self.fail("closure".into());
                }
            }
            _ => {}
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            match s {
                // local constants
                Stmt::Item(Item::Const(c)) => {
                    let (i, t, x) = (&c.ident, &c.ty, &c.expr);
                    let mut st: Stmt = parse_quote!(let #i: #t = #x;);
                    if let Stmt::Local(l) = &mut st {
                        visit_expr(self, &mut l.init.as_mut().unwrap().expr);
                    }
                    out.push(st);
                }
                // nested functions are verified on their own
                Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Macro(_)) | Stmt::Item(Item::Use(_)) => {}
                mut s => {
                    // anchors count calls in source order, before rewriting
                    let hits = self.anchors(&s);
                    visit_mut::visit_stmt_mut(self, &mut s);
                    let (mut pre, mut post) = (vec![], vec![]);
                    for (after, t) in hits {
                        let x = self.vp(&t);
                        if let Ok(bl) = syn::parse2::<Block>(quote!({ #x })) {
                            if after {
                                post.extend(bl.stmts)
                            } else {
                                pre.extend(bl.stmts)
                            }
                        }
                    }
                    out.extend(pre);
                    // a statement expression followed by proof text needs its semicolon
                    out.push(s);
                    out.extend(post);
                }
            }
        }
        b.stmts = out;
    }
}
fn eq_consts(b: &Expr, p: &str) -> Option<Vec<Expr>> {
    match strip_paren(b) {
        Expr::Binary(x) => match x.op {
            BinOp::Eq(_) => {
                if text(&*x.left) == p {
                    Some(vec![(*x.right).clone()])
                } else if text(&*x.right) == p {
                    Some(vec![(*x.left).clone()])
                } else {
                    None
                }
            }
            BinOp::Or(_) => {
                let mut a = eq_consts(&x.left, p)?;
                a.extend(eq_consts(&x.right, p)?);
                Some(a)
            }
            _ => None,
        },
        _ => None,
    }
}
impl<'a> Norm<'a> {
    /// Calls in this statement outside nested blocks, matched with `call` directives.
    fn anchors(&mut self, s: &Stmt) -> Vec<(bool, String)> {
        struct V(Vec<String>);
        impl<'b> syn::visit::Visit<'b> for V {
            fn visit_block(&mut self, _: &'b Block) {}
            fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
                syn::visit::visit_expr_method_call(self, m);
                self.0.push(m.method.to_string());
            }
            fn visit_expr_call(&mut self, m: &'b ExprCall) {
                syn::visit::visit_expr_call(self, m);
                if let Expr::Path(p) = &*m.func {
                    self.0.push(p.path.segments.last().unwrap().ident.to_string());
                }
                if let Expr::Closure(_) = strip_paren(&m.func) {
                    self.0.push("closure".into());
                }
            }
        }
        let mut v = V(vec![]);
        syn::visit::Visit::visit_stmt(&mut v, s);
        let mut out = vec![];
        for n in v.0 {
            let k = self.calls.entry(n.clone()).or_insert(0);
            for (cn, ck, after, t) in &self.c.calls {
                if *cn == n && *ck == *k {
                    out.push((*after, t.clone()));
                }
            }
            *k += 1;
        }
        out
    }
}

/// The k-th closure given to a method; optionally replaced.
fn arg_closure(b: &mut Block, k: usize, with: Option<Expr>) -> Option<ExprClosure> {
    struct V(usize, usize, Option<ExprClosure>, Option<Expr>);
    impl VisitMut for V {
        fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
            visit_mut::visit_expr_mut(self, &mut c.receiver);
            for a in c.args.iter_mut() {
                if let Expr::Closure(cl) = a {
                    if self.0 == self.1 && self.2.is_none() {
                        self.2 = Some(cl.clone());
                        if let Some(w) = &self.3 {
                            *a = w.clone();
                        }
                        self.0 += 1;
                        continue;
                    }
                    self.0 += 1;
                }
                visit_mut::visit_expr_mut(self, a);
            }
        }
    }
    let mut v = V(0, k, None, with);
    v.visit_block_mut(b);
    v.2
}

/// Single-precision numbers: the type, literals and conversions to it.
struct Floats;
impl VisitMut for Floats {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if t.to_token_stream().to_string() == "f32" {
            *t = parse_quote!(F32);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f32" => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                *e = parse_quote!(v_f32(#x));
            }
            Expr::Lit(ExprLit { lit: Lit::Float(l), .. }) if l.suffix().is_empty() || l.suffix() == "f32" => {
                let d = l.base10_digits().to_string();
                let (a, b) = d.split_once('.').unwrap_or((&d, ""));
                if let (Ok(n), true) = (format!("{}{}", a, b).parse::<u64>(), b.len() < 18) {
                    let q = 10u64.pow(b.len() as u32);
                    let (n, q) = if b.chars().all(|c| c == '0') { (n / q, 1) } else { (n, q) };
                    *e = parse_quote!(v_f32_lit(#n, #q));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// A closure cut out of its function (immediately invoked), as a block.
pub fn cut_closure(b: &Block, k: usize) -> Option<ExprClosure> {
    struct V(usize, usize, Option<ExprClosure>);
    impl<'b> syn::visit::Visit<'b> for V {
        fn visit_expr_call(&mut self, c: &'b ExprCall) {
            if let Expr::Closure(cl) = strip_paren(&c.func) {
                if self.0 == self.1 {
                    self.2 = Some(cl.clone());
                }
                self.0 += 1;
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut v = V(0, k, None);
    syn::visit::Visit::visit_block(&mut v, b);
    v.2
}

pub fn run(sig: &mut Signature, block: &mut Block, c: &FnC, macros: &[(String, Mac)], texts: &mut Vec<String>, helpers: &crate::inline::Helpers, own: Option<Type>) -> std::result::Result<String, String> {
    let value = c.opts.contains_key("closure");
    let mut inl = crate::inline::Inliner { h: helpers, own, depth: 4, done: vec![] };
    inl.block(block, !value);
    // a cut-out closure
    if let Some(k) = c.opts.get("closure") {
        let cl = cut_closure(block, k.parse().unwrap()).ok_or("closure not found")?;
        *block = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        sig.output = cl.output.clone();
    }
    // a closure given to a method, taken as a function of its own, or replaced by a name
    if let Some(k) = c.opts.get("argclosure") {
        let cl = arg_closure(block, k.parse().unwrap(), None).ok_or("closure not found")?;
        *block = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        let t = c.opts.get("output").ok_or("output=")?;
        let t: Type = syn::parse_str(&t.replace('~', " ")).map_err(|x| x.to_string())?;
        sig.output = parse_quote!(-> #t);
    }
    if let Some(k) = c.opts.get("hole") {
        arg_closure(block, k.parse().unwrap(), Some(parse_quote!(__hole))).ok_or("closure not found")?;
    }
    // declared textual substitutions
    for (a, b) in &c.subst {
        let pa: TokenStream = a.parse().map_err(|_| "subst pattern")?;
        let pb: TokenStream = b.parse().map_err(|_| "subst replacement")?;
        let t = text(&*block).replace("> >", ">>").replace("::<", ":: <");
        let pt = pa.to_string().replace("> >", ">>").replace("::<", ":: <");
        if !t.contains(&pt) {
            return Err(format!("anchor text not found: {}", a));
        }
        let n = t.replace(&pt, &pb.to_string());
        *block = syn::parse_str(&n).map_err(|x| format!("subst: {}", x))?;
    }
    let mut ms: BTreeMap<String, Mac> = macros.iter().cloned().collect();
    {
        let mut local = vec![];
        let items: Vec<Item> = block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
        collect_macros(&items, &mut local);
        ms.extend(local);
    }
    block.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(_))));
    let mut mp = MacroPass { macros: &ms, err: None, fmt: 0, refuse: c.opts.get("assert").map_or(false, |s| s == "refuse"), own_only: false };
    mp.visit_block_mut(block);
    if let Some(e) = mp.err {
        return Err(e);
    }
    Floats.visit_block_mut(block);
    inl.block(block, !value);
    let inlined = inl.done.clone();
    if !c.opts.contains_key("closures") {
        struct V;
        impl VisitMut for V {
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                inline_closures(b);
            }
        }
        V.visit_block_mut(block);
    }
    if !value {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            mark_search(e);
        }
    }
    rename_shadows(block, c);
    ByteConsts(&ms).visit_block_mut(block);
    Lits.visit_block_mut(block);
    let mut n = Norm { c, macros: ms.clone(), texts, nloop: 0, err: None, calls: BTreeMap::new(), nlift: 0, used_loops: vec![] };
    n.visit_block_mut(block);
    if let Some(e) = n.err.take() {
        return Err(e);
    }
    let loops = n.nloop;
    let want = c.loops.keys().max().map_or(0, |k| k + 1);
    if loops != want && !c.opts.contains_key("anyloops") {
        return Err(format!("structure changed: {} loops, the contract describes {}", loops, want));
    }
    for (cn, ck, _, _) in &c.calls {
        if n.calls.get(cn).map_or(true, |k| k <= ck) {
            return Err(format!("structure changed: no call {} of {}", ck, cn));
        }
    }
    let entry = n.vp(&c.entry);
    let exit = n.vp(&c.exit);
    if n.alt() == 1 && !c.exit.trim().is_empty() {
        struct R(TokenStream, bool);
        impl VisitMut for R {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Return(r) => {
                        let x = &self.0;
                        if let Some(v) = &r.expr {
                            *e = if self.1 { parse_quote!({ let __r = #v; #x return __r; }) } else { return };
                        } else {
                            *e = parse_quote!({ #x return; });
                        }
                    }
                    Expr::Closure(_) => {}
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
            fn visit_item_mut(&mut self, _: &mut Item) {}
        }
        let val = matches!(block.stmts.last(), Some(Stmt::Expr(_, None))) && !matches!(sig.output, ReturnType::Default);
        R(exit.clone(), val).visit_block_mut(block);
    }
    let st = block.stmts.clone();
    let nb: Block = if c.exit.trim().is_empty() {
        parse2(quote!({ #entry #(#st)* })).map_err(|x| x.to_string())?
    } else {
        match st.split_last() {
            Some((Stmt::Expr(e, None), rest)) if !matches!(sig.output, ReturnType::Default) => {
                let r = format_ident!("__r");
                parse2(quote!({ #entry #(#rest)* let #r = #e; #exit #r })).map_err(|x| x.to_string())?
            }
            _ => parse2(quote!({ #entry #(#st)* #exit })).map_err(|x| x.to_string())?,
        }
    };
    *block = nb;
    if !inlined.is_empty() {
        return Ok(format!("{} loops; helpers written out in place: {}", loops, inlined.join(", ")));
    }
    Ok(format!("{} loops", loops))
}
#[allow(dead_code)]
fn unused(_: Delimiter) {}
