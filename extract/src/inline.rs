//! Calls of helper functions that have no contract of their own are replaced by their bodies.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub struct Helper {
    pub sig: Signature,
    pub block: Block,
    pub ty: Option<Type>,
}
#[derive(Default, Clone)]
pub struct Helpers {
    pub free: BTreeMap<String, Option<Helper>>,
    pub methods: BTreeMap<String, Option<Helper>>,
}
impl Helpers {
    pub fn add(&mut self, items: &[Item], known: &BTreeSet<String>) {
        fn put(m: &mut BTreeMap<String, Option<Helper>>, n: String, h: Helper) {
            let v = if m.contains_key(&n) { None } else { Some(h) };
            m.insert(n, v);
        }
        for i in items {
            match i {
                Item::Fn(f) if !known.contains(&f.sig.ident.to_string()) => put(&mut self.free, f.sig.ident.to_string(), Helper { sig: f.sig.clone(), block: (*f.block).clone(), ty: None }),
                Item::Impl(im) if im.trait_.is_none() => {
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if !known.contains(&f.sig.ident.to_string()) {
                                put(&mut self.methods, f.sig.ident.to_string(), Helper { sig: f.sig.clone(), block: f.block.clone(), ty: Some((*im.self_ty).clone()) });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn ids<T: ToTokens>(t: &T) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    idents(t.to_token_stream(), &mut s);
    s
}
fn bound(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(Default::default());
    v.visit_block(b);
    v.0
}
/// Contains a `return` (or `?`) of its own, closures aside.
fn leaves<T>(t: &T, q: bool, go: impl Fn(&mut Leaves, &T)) -> bool {
    let mut l = Leaves { q, found: false };
    go(&mut l, t);
    l.found
}
struct Leaves {
    q: bool,
    found: bool,
}
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.found = true;
    }
    fn visit_expr_try(&mut self, t: &'a ExprTry) {
        if self.q {
            self.found = true;
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if ["bail", "ensure"].contains(&n.as_str()) || ids(&m.tokens).contains("return") {
            self.found = true;
        }
    }
}
fn expr_leaves(e: &Expr, q: bool) -> bool {
    leaves(e, q, |l, e| l.visit_expr(e))
}
fn block_leaves(b: &Block, q: bool) -> bool {
    leaves(b, q, |l, e| l.visit_block(e))
}
/// Every path through the expression ends in `return`.
fn always(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Block(b) => always_b(&b.block),
        Expr::If(i) => always_b(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| always(e)),
        Expr::Match(m) => m.arms.iter().all(|a| always(&a.body)),
        Expr::Paren(p) => always(&p.expr),
        _ => false,
    }
}
fn always_b(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => always(e),
        _ => false,
    }
}
fn unit() -> Expr {
    parse_quote!(())
}
/// The value of the block with its returns turned into values; None where that is not possible.
fn value_block(b: &Block) -> Option<Block> {
    let mut out: Vec<Stmt> = vec![];
    let mut it = b.stmts.iter().enumerate();
    while let Some((k, s)) = it.next() {
        let last = k + 1 == b.stmts.len();
        let rest = || Block { brace_token: b.brace_token, stmts: b.stmts[k + 1..].to_vec() };
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let v = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or_else(unit);
                if expr_leaves(&v, false) {
                    return None;
                }
                out.push(Stmt::Expr(v, None));
                return Some(Block { brace_token: b.brace_token, stmts: out });
            }
            Stmt::Expr(e, semi) if expr_leaves(e, false) => {
                if last && (semi.is_none() || always(e)) {
                    out.push(Stmt::Expr(value(e)?, None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                match e {
                    Expr::If(i) => {
                        let r = rest();
                        let then = i.then_branch.clone();
                        let c = &i.cond;
                        if expr_leaves(c, false) {
                            return None;
                        }
                        let (t, el): (Block, Expr) = if always_b(&then) {
                            let mut eb = match &i.else_branch {
                                Some((_, x)) => vec![Stmt::Expr((**x).clone(), Some(Default::default()))],
                                None => vec![],
                            };
                            eb.extend(r.stmts);
                            let eb = value_block(&Block { brace_token: b.brace_token, stmts: eb })?;
                            (value_block(&then)?, parse_quote!(#eb))
                        } else if let Some((_, x)) = &i.else_branch {
                            if !always(x) {
                                return None;
                            }
                            let mut tb = then.stmts.clone();
                            if let Some(Stmt::Expr(_, s @ None)) = tb.last_mut() {
                                *s = Some(Default::default());
                            }
                            tb.extend(r.stmts);
                            (value_block(&Block { brace_token: b.brace_token, stmts: tb })?, value(x)?)
                        } else {
                            return None;
                        };
                        out.push(Stmt::Expr(parse_quote!(if #c #t else #el), None));
                        return Some(Block { brace_token: b.brace_token, stmts: out });
                    }
                    _ => return None,
                }
            }
            Stmt::Local(l) if l.init.as_ref().map_or(false, |i| expr_leaves(&i.expr, false) || i.diverge.is_some()) => {
                let i = l.init.as_ref().unwrap();
                let pat = &l.pat;
                let r = rest();
                if let Some((_, d)) = &i.diverge {
                    // let PAT = e else { return v };
                    let e = &i.expr;
                    let v = value(d)?;
                    let r = value_block(&r)?;
                    out.push(Stmt::Expr(parse_quote!(match #e { #pat => #r, _ => #v }), None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                if let Expr::Match(m) = &*i.expr {
                    let live: Vec<usize> = m.arms.iter().enumerate().filter(|(_, a)| !always(&a.body)).map(|(k, _)| k).collect();
                    if live.len() != 1 || expr_leaves(&m.arms[live[0]].body, false) || expr_leaves(&m.expr, false) {
                        return None;
                    }
                    let mut m = m.clone();
                    for (k, a) in m.arms.iter_mut().enumerate() {
                        let bd = &a.body;
                        a.body = if k == live[0] {
                            let rs = &r.stmts;
                            let nb = value_block(&parse_quote!({ let #pat = #bd; #(#rs)* }))?;
                            parse_quote!(#nb)
                        } else {
                            Box::new(value(bd)?)
                        };
                        a.comma = Some(Default::default());
                    }
                    out.push(Stmt::Expr(Expr::Match(m), None));
                    return Some(Block { brace_token: b.brace_token, stmts: out });
                }
                return None;
            }
            Stmt::Macro(m) if leaves(m, false, |l, m| l.visit_macro(&m.mac)) => return None,
            _ => out.push(s.clone()),
        }
    }
    Some(Block { brace_token: b.brace_token, stmts: out })
}
fn value(e: &Expr) -> Option<Expr> {
    if !expr_leaves(e, false) {
        return Some(e.clone());
    }
    match e {
        Expr::Return(r) => {
            let v = r.expr.as_ref().map(|x| (**x).clone()).unwrap_or_else(unit);
            if expr_leaves(&v, false) { None } else { Some(v) }
        }
        Expr::Block(b) => {
            let x = value_block(&b.block)?;
            Some(parse_quote!(#x))
        }
        Expr::Paren(p) => value(&p.expr),
        Expr::If(i) => {
            let t = value_block(&i.then_branch)?;
            let (_, el) = i.else_branch.as_ref()?;
            let el = value(el)?;
            let c = &i.cond;
            if expr_leaves(c, false) {
                return None;
            }
            let el: Expr = if matches!(el, Expr::If(_) | Expr::Block(_)) { el } else { parse_quote!({ #el }) };
            Some(parse_quote!(if #c #t else #el))
        }
        Expr::Match(m) => {
            if expr_leaves(&m.expr, false) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                a.body = Box::new(value(&a.body)?);
                a.comma = Some(Default::default());
            }
            Some(Expr::Match(m))
        }
        _ => None,
    }
}
/// Under `?`: Ok(x) -> x, Err(x) -> return Err(x), anything else -> e?.
fn unwrap_tail(e: &Expr) -> Expr {
    match e {
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Ok" => c.args[0].clone(),
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Err" => parse_quote!(return #c),
        Expr::If(i) if i.else_branch.is_some() => {
            let mut i = i.clone();
            i.then_branch = unwrap_block(&i.then_branch);
            let (t, el) = i.else_branch.take().unwrap();
            i.else_branch = Some((t, Box::new(unwrap_tail(&el))));
            Expr::If(i)
        }
        Expr::Block(b) => {
            let x = unwrap_block(&b.block);
            parse_quote!(#x)
        }
        Expr::Match(m) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                a.body = Box::new(unwrap_tail(&a.body));
                a.comma = Some(Default::default());
            }
            Expr::Match(m)
        }
        Expr::Return(_) => e.clone(),
        e => parse_quote!(#e?),
    }
}
fn unwrap_block(b: &Block) -> Block {
    let mut b = b.clone();
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        *e = unwrap_tail(e);
    }
    b
}

/// What a parameter stands for.
#[derive(Clone)]
enum Sub {
    /// by value: an identifier or place that can be written in its stead
    Val(Expr),
    /// `&place` or `&mut place`
    Ref(Expr, bool),
}
struct Subst<'a> {
    m: &'a BTreeMap<String, Sub>,
    ty: Option<Type>,
}
fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
impl<'a> Subst<'a> {
    fn place(&self, e: &Expr) -> Option<Expr> {
        match self.m.get(&ident_of(e)?)? {
            Sub::Val(x) | Sub::Ref(x, _) => Some(x.clone()),
        }
    }
    fn toks(&self, ts: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut prev_dot = false;
        for t in ts {
            match t {
                TokenTree::Ident(i) if !prev_dot && self.m.contains_key(&i.to_string()) => match &self.m[&i.to_string()] {
                    Sub::Val(x) => out.extend(quote!(#x)),
                    Sub::Ref(x, false) => out.extend(quote!((&#x))),
                    Sub::Ref(x, true) => out.extend(quote!((&mut #x))),
                },
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.toks(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                    prev_dot = false;
                    continue;
                }
                t => {
                    prev_dot = matches!(&t, TokenTree::Punct(p) if p.as_char() == '.');
                    out.extend([t]);
                    continue;
                }
            }
            prev_dot = false;
        }
        out
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) => {
                if let Some(p) = self.place(&f.base) {
                    *f.base = p;
                    return;
                }
            }
            Expr::MethodCall(c) => {
                if let Some(p) = self.place(&c.receiver) {
                    *c.receiver = p;
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Index(c) => {
                if let Some(p) = self.place(&c.expr) {
                    *c.expr = p;
                    self.visit_expr_mut(&mut c.index);
                    return;
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(n) = ident_of(&u.expr) {
                    if let Some(Sub::Ref(x, _)) = self.m.get(&n) {
                        *e = x.clone();
                        return;
                    }
                }
            }
            Expr::Path(_) => {
                if let Some(n) = ident_of(e) {
                    match self.m.get(&n) {
                        Some(Sub::Val(x)) => *e = x.clone(),
                        Some(Sub::Ref(x, false)) => *e = parse_quote!(&#x),
                        Some(Sub::Ref(x, true)) => *e = parse_quote!(&mut #x),
                        None => visit_mut::visit_expr_mut(self, e),
                    }
                    return;
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(t) = &self.ty {
            if p.segments.first().map_or(false, |s| s.ident == "Self") {
                if let Type::Path(tp) = t {
                    let mut v: Vec<PathSegment> = tp.path.segments.iter().cloned().collect();
                    if p.segments.len() > 1 {
                        // in expressions the type's arguments are left to inference
                        v.iter_mut().for_each(|s| s.arguments = PathArguments::None);
                    }
                    v.extend(p.segments.iter().skip(1).cloned());
                    p.segments = v.into_iter().collect();
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.qself.is_none() && p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

pub struct Inliner<'a> {
    pub h: &'a Helpers,
    pub own: Option<Type>,
    pub depth: usize,
    pub done: Vec<String>,
}
enum How {
    Value,
    Question,
    Tail,
}
impl<'a> Inliner<'a> {
    fn helper(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>, String)> {
        match e {
            Expr::Call(c) => {
                let p = if let Expr::Path(p) = &*c.func { p } else { return None };
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let n = s.last()?.clone();
                if s.len() >= 2 && (s[s.len() - 2] == "Self" || s[s.len() - 2].chars().next()?.is_uppercase()) {
                    let h = self.h.methods.get(&n)?.clone()?;
                    let t = &s[s.len() - 2];
                    let ht = ids(h.ty.as_ref()?);
                    let own = self.own.as_ref().map(|t| ids(t)).unwrap_or_default();
                    if !(ht.contains(t) || (t == "Self" && own == ht)) {
                        return None;
                    }
                    if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                        let (r, a) = args.split_first()?;
                        return Some((h, Some(r.clone()), a.to_vec(), n));
                    }
                    return Some((h, None, args, n));
                }
                Some((self.h.free.get(&n)?.clone()?, None, args, n))
            }
            Expr::MethodCall(c) => {
                let n = c.method.to_string();
                let h = self.h.methods.get(&n)?.clone()?;
                if !matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    return None;
                }
                Some((h, Some((*c.receiver).clone()), c.args.iter().cloned().collect(), n))
            }
            Expr::Paren(p) => self.helper(&p.expr),
            _ => None,
        }
    }
    /// The statements and value a call stands for.
    fn expand(&mut self, e: &Expr, how: How) -> Option<Block> {
        let (h, recv, args, name) = self.helper(e)?;
        if self.depth == 0 || h.sig.asyncness.is_some() || h.sig.unsafety.is_some() {
            return None;
        }
        let mut body = h.block.clone();
        if body.stmts.iter().any(|s| matches!(s, Stmt::Item(i) if !matches!(i, Item::Const(_)))) {
            return None;
        }
        body = match how {
            How::Value => {
                if block_leaves(&body, true) && {
                    // `?` cannot be turned into a value
                    let mut l = Leaves { q: true, found: false };
                    struct Q(bool);
                    impl<'b> Visit<'b> for Q {
                        fn visit_expr_try(&mut self, _: &'b ExprTry) {
                            self.0 = true;
                        }
                        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
                    }
                    let mut q = Q(false);
                    q.visit_block(&body);
                    l.found = q.0;
                    l.found
                } {
                    return None;
                }
                value_block(&body)?
            }
            How::Question => {
                let has_ok_return = {
                    struct R(bool);
                    impl<'b> Visit<'b> for R {
                        fn visit_expr_return(&mut self, r: &'b ExprReturn) {
                            let t = r.expr.as_ref().map(|x| x.to_token_stream().to_string()).unwrap_or_default();
                            if !t.starts_with("Err") {
                                self.0 = true;
                            }
                        }
                        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
                    }
                    let mut r = R(false);
                    r.visit_block(&body);
                    r.0
                };
                let b = if has_ok_return { value_block(&body)? } else { body };
                unwrap_block(&b)
            }
            How::Tail => body,
        };
        let names = bound(&body);
        let mut m: BTreeMap<String, Sub> = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let mut k = 0;
        let mut seen: BTreeSet<String> = BTreeSet::new();
        let mut used: BTreeSet<String> = BTreeSet::new();
        for a in args.iter().chain(recv.iter()) {
            used.extend(ids(a));
        }
        if names.intersection(&used).next().is_some() {
            // a local of the helper would capture an argument: rename it
            struct Ren<'b>(&'b BTreeSet<String>);
            impl<'b> VisitMut for Ren<'b> {
                fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                    if self.0.contains(&p.ident.to_string()) {
                        p.ident = format_ident!("{}_h", p.ident);
                    }
                    visit_mut::visit_pat_ident_mut(self, p);
                }
                fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                    if let Some(i) = p.path.get_ident().cloned() {
                        if self.0.contains(&i.to_string()) {
                            p.path = format_ident!("{}_h", i).into();
                        }
                    }
                }
                fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                    visit_mut::visit_field_value_mut(self, f);
                }
                fn visit_macro_mut(&mut self, m: &mut Macro) {
                    fn go(ts: TokenStream, s: &BTreeSet<String>) -> TokenStream {
                        ts.into_iter()
                            .map(|t| match t {
                                TokenTree::Ident(i) if s.contains(&i.to_string()) => TokenTree::Ident(format_ident!("{}_h", i)),
                                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), s))),
                                t => t,
                            })
                            .collect()
                    }
                    m.tokens = go(m.tokens.clone(), self.0);
                }
            }
            let params: BTreeSet<String> = h.sig.inputs.iter().flat_map(|i| ids(&match i { FnArg::Typed(t) => t.pat.to_token_stream(), r => r.to_token_stream() })).collect();
            let clash: BTreeSet<String> = names.intersection(&used).filter(|n| !params.contains(*n)).cloned().collect();
            Ren(&clash).visit_block_mut(&mut body);
        }
        for inp in &h.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let mut x = recv.clone()?;
                    let by_ref = r.reference.is_some();
                    if let Expr::Reference(q) = &x {
                        x = (*q.expr).clone();
                    }
                    while let Expr::Paren(q) = &x {
                        x = (*q.expr).clone();
                    }
                    if is_place(&x) {
                        let plain = ident_of(&x).map_or(false, |n| n == "self");
                        m.insert("self".into(), if by_ref && !plain { Sub::Ref(x, r.mutability.is_some()) } else { Sub::Val(x) });
                    } else {
                        if r.mutability.is_some() {
                            return None;
                        }
                        lets.push(if by_ref { parse_quote!(let __me = &#x;) } else { parse_quote!(let __me = #x;) });
                        m.insert("self".into(), Sub::Val(parse_quote!(__me)));
                    }
                }
                FnArg::Typed(t) => {
                    let p = match &*t.pat {
                        Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.clone(),
                        _ => return None,
                    };
                    let n = p.ident.to_string();
                    if names.contains(&n) {
                        return None; // shadowed in the body
                    }
                    let a = args.get(k)?.clone();
                    k += 1;
                    match &a {
                        Expr::Reference(r) if is_place(&r.expr) && p.mutability.is_none() => {
                            m.insert(n.clone(), Sub::Ref((*r.expr).clone(), r.mutability.is_some()));
                        }
                        x if ident_of(x).is_some() && p.mutability.is_none() => {
                            m.insert(n.clone(), Sub::Val(x.clone()));
                        }
                        Expr::Lit(_) if p.mutability.is_none() => {
                            m.insert(n.clone(), Sub::Val(a.clone()));
                        }
                        x => {
                            if seen.iter().any(|s| ids(x).contains(s)) {
                                return None;
                            }
                            let ty = &t.ty;
                            let generic = h.sig.generics.params.iter().any(|g| matches!(g, GenericParam::Type(g) if ids(ty).contains(&g.ident.to_string()))) || ids(ty).contains("impl");
                            lets.push(if generic { parse_quote!(let #p = #x;) } else { parse_quote!(let #p: #ty = #x;) });
                            seen.insert(n.clone());
                            if used.contains(&n) && ident_of(x).is_none() && args.iter().skip(k).any(|y| ids(y).contains(&n)) {
                                return None;
                            }
                        }
                    }
                }
            }
        }
        if k != args.len() {
            return None;
        }
        let same = match (&self.own, &h.ty) {
            (Some(a), Some(b)) => ids(a) == ids(b),
            (_, None) => true,
            _ => false,
        };
        let mut s = Subst { m: &m, ty: if same { None } else { h.ty.clone() } };
        s.visit_block_mut(&mut body);
        lets.append(&mut body.stmts);
        let mut b = Block { brace_token: body.brace_token, stmts: lets };
        let own = if same { self.own.clone() } else { h.ty.clone() };
        let mut inner = Inliner { h: self.h, own, depth: self.depth - 1, done: vec![] };
        inner.block(&mut b, matches!(how, How::Tail));
        self.done.push(name);
        self.done.append(&mut inner.done);
        Some(b)
    }
    /// Statement level first: the helper's statements take the place of the call.
    pub fn block(&mut self, b: &mut Block, tail: bool) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        let all: BTreeSet<String> = ids(&*b);
        let flat = |x: &Block| bound(x).intersection(&all).next().is_none();
        for (k, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let last = k + 1 == n;
            match s {
                Stmt::Expr(e, semi) => {
                    if tail && last && semi.is_none() {
                        if let Some(x) = self.expand(&e, How::Tail) {
                            if flat(&x) {
                                out.extend(x.stmts);
                            } else {
                                out.push(Stmt::Expr(parse_quote!(#x), None));
                            }
                            continue;
                        }
                    }
                    let (call, how) = match &e {
                        Expr::Try(t) => ((*t.expr).clone(), How::Question),
                        e => (e.clone(), How::Value),
                    };
                    if let Some(mut x) = self.expand(&call, how) {
                        if semi.is_some() {
                            if let Some(Stmt::Expr(t, None)) = x.stmts.last() {
                                if t.to_token_stream().to_string() == "()" {
                                    x.stmts.pop();
                                }
                            }
                            if let Some(Stmt::Expr(_, z @ None)) = x.stmts.last_mut() {
                                *z = Some(Default::default());
                            }
                        }
                        if flat(&x) {
                            out.extend(x.stmts);
                        } else {
                            out.push(Stmt::Expr(parse_quote!(#x), semi));
                        }
                        continue;
                    }
                    let mut e = e;
                    self.visit_tail(&mut e, tail && last && semi.is_none());
                    out.push(Stmt::Expr(e, semi));
                }
                Stmt::Local(mut l) => {
                    if let Some(i) = &mut l.init {
                        let (call, how) = match &*i.expr {
                            Expr::Try(t) => ((*t.expr).clone(), How::Question),
                            e => (e.clone(), How::Value),
                        };
                        if i.diverge.is_none() {
                            if let Some(mut x) = self.expand(&call, how) {
                                if flat(&x) && matches!(x.stmts.last(), Some(Stmt::Expr(_, None))) {
                                    if let Some(Stmt::Expr(t, None)) = x.stmts.pop() {
                                        out.extend(x.stmts);
                                        *i.expr = t;
                                    }
                                } else {
                                    *i.expr = parse_quote!(#x);
                                }
                                out.push(Stmt::Local(l));
                                continue;
                            }
                        }
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, d)) = &mut i.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
    }
    fn visit_tail(&mut self, e: &mut Expr, tail: bool) {
        match e {
            Expr::If(i) if tail => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, true);
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_tail(x, true);
                }
            }
            Expr::Block(b) if tail => self.block(&mut b.block, true),
            _ => self.visit_expr_mut(e),
        }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b, false);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                if self.helper(x).is_some() {
                    // the value of the function: the helper's own returns do
                    if let Some(b) = self.expand(&x.clone(), How::Value) {
                        *e = parse_quote!(return #b);
                        return;
                    }
                }
            }
        }
        if let Expr::Try(t) = e {
            if let Some(b) = self.expand(&t.expr.clone(), How::Question) {
                *e = simple(b);
                return;
            }
        }
        if let Some(b) = self.expand(&e.clone(), How::Value) {
            *e = simple(b);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn simple(b: Block) -> Expr {
    if let [Stmt::Expr(e, None)] = b.stmts.as_slice() {
        let e = e.clone();
        return match e {
            Expr::Path(_) | Expr::Lit(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_) | Expr::Field(_) => e,
            e => parse_quote!((#e)),
        };
    }
    parse_quote!(#b)
}
