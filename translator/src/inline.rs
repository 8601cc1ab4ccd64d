//! A function the contracts do not know (a helper somebody extracted) and that is no formula either is put back
//! where it is called: parameters become variables, returns become the ends of branches.
//! What cannot be put back this way stays a call.
use crate::krate::{FnInfo, Kind, Krate};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub fn run(k: &mut Krate, known: &BTreeSet<String>, pure_: &BTreeSet<String>) {
    if known.is_empty() { return; }
    let mut uniq = 0;
    for _ in 0..4 {
        let mut hs: BTreeMap<String, FnInfo> = BTreeMap::new();
        for f in &k.fns {
            if known.contains(&f.key) || pure_.contains(&f.key) || !matches!(f.kind, Kind::Inherent | Kind::Free) || !f.sig.generics.params.is_empty() || !f.generics.is_empty() { continue; }
            if k.fns.iter().filter(|g| g.name == f.name).count() != 1 || mentions(&f.block, &f.name) { continue; }
            if let Some(b) = ready(f) { let mut f = f.clone(); f.block = b; hs.insert(f.name.clone(), f); }
        }
        if hs.is_empty() { return; }
        let mut v = Calls { hs: &hs, uniq, did: false };
        for f in &mut k.fns { v.visit_block_mut(&mut f.block); }
        uniq = v.uniq;
        if !v.did { break; }
        // those nobody calls any more have nothing left to be said about
        let gone: Vec<String> = hs.keys().filter(|n| !k.fns.iter().any(|f| f.name != **n && calls(&f.block, n, hs[*n].kind == Kind::Free))).cloned().collect();
        k.fns.retain(|f| !(hs.contains_key(&f.name) && gone.contains(&f.name)));
    }
}
fn mentions(b: &Block, n: &str) -> bool { fn go(t: proc_macro2::TokenStream, n: &str) -> bool { t.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(i) => i == n, proc_macro2::TokenTree::Group(g) => go(g.stream(), n), _ => false }) } go(b.to_token_stream(), n) }
/// called, or named by its path
fn calls(b: &Block, n: &str, free: bool) -> bool {
    fn go(t: proc_macro2::TokenStream, n: &str, free: bool) -> bool {
        use proc_macro2::TokenTree as T;
        let v: Vec<T> = t.into_iter().collect();
        v.iter().enumerate().any(|(i, t)| match t {
            T::Ident(d) => d == n && (free || matches!(v.get(i + 1), Some(T::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis) || i > 0 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == ':')),
            T::Group(g) => go(g.stream(), n, free),
            _ => false,
        })
    }
    go(b.to_token_stream(), n, free)
}
fn has_ret<T: ToTokens>(t: &T) -> bool { fn go(t: proc_macro2::TokenStream) -> bool { t.into_iter().any(|t| match t { proc_macro2::TokenTree::Ident(i) => i == "return", proc_macro2::TokenTree::Group(g) => go(g.stream()), _ => false }) } go(t.to_token_stream()) }
fn has_try<T: ToTokens>(t: &T) -> bool { fn go(t: proc_macro2::TokenStream) -> bool { t.into_iter().any(|t| match t { proc_macro2::TokenTree::Punct(p) => p.as_char() == '?', proc_macro2::TokenTree::Group(g) => go(g.stream()), _ => false }) } go(t.to_token_stream()) }
/// the body without returns, if it can be had
fn ready(f: &FnInfo) -> Option<Block> {
    if has_try(&f.block) { return None; }
    let mut copies = 0;
    let s = tail(f.block.stmts.clone(), &mut copies)?;
    Some(Block { brace_token: f.block.brace_token, stmts: s })
}
fn block(s: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts: s } }
fn eblock(b: Block) -> Expr { Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }) }
fn stmts_of(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), e => vec![Stmt::Expr(e.clone(), None)] } }
/// never gets past its last statement
fn leaves(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => match e {
            Expr::Return(_) => true,
            Expr::Block(b) => leaves(&b.block.stmts),
            Expr::If(i) => i.else_branch.as_ref().map_or(false, |(_, e)| leaves(&i.then_branch.stmts) && leaves(&stmts_of(e))),
            Expr::Match(m) => m.arms.iter().all(|a| leaves(&stmts_of(&a.body))),
            Expr::Macro(m) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
            _ => false,
        },
        Some(Stmt::Macro(m)) => m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable"),
        _ => false,
    }
}
fn cont(mut s: Vec<Stmt>, rest: &[Stmt], copies: &mut usize) -> Option<Vec<Stmt>> {
    if !leaves(&s) {
        if !rest.is_empty() {
            *copies += 1;
            if *copies > 6 { return None; }
            if let Some(Stmt::Expr(_, semi)) = s.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } }
            s.extend(rest.iter().cloned());
        }
    }
    tail(s, copies)
}
fn tail(s: Vec<Stmt>, copies: &mut usize) -> Option<Vec<Stmt>> {
    let Some(i) = s.iter().position(|x| has_ret(x)) else { return Some(s) };
    let (mut out, rest) = (s[..i].to_vec(), &s[i + 1..]);
    match &s[i] {
        Stmt::Expr(e, _) => {
            let e2 = match e {
                Expr::Return(r) => { if r.expr.as_ref().map_or(false, |e| has_ret(e)) { return None; } if let Some(e) = &r.expr { out.push(Stmt::Expr((**e).clone(), None)); } return Some(out); }
                Expr::Block(b) if b.label.is_none() => eblock(block(cont(b.block.stmts.clone(), rest, copies)?)),
                Expr::If(x) => {
                    if has_ret(&x.cond) { return None; }
                    let t = cont(x.then_branch.stmts.clone(), rest, copies)?;
                    let e = match &x.else_branch { Some((_, e)) => cont(stmts_of(e), rest, copies)?, None => tail(rest.to_vec(), copies)? };
                    Expr::If(ExprIf { attrs: vec![], if_token: x.if_token, cond: x.cond.clone(), then_branch: block(t), else_branch: if e.is_empty() { None } else { Some((Default::default(), Box::new(eblock(block(e))))) } })
                }
                Expr::Match(m) => {
                    if has_ret(&m.expr) { return None; }
                    let mut m = m.clone();
                    for a in &mut m.arms { if a.guard.as_ref().map_or(false, |g| has_ret(&g.1)) { return None; } a.body = Box::new(eblock(block(cont(stmts_of(&a.body), rest, copies)?))); a.comma = Some(Default::default()); }
                    Expr::Match(m)
                }
                // a closure may return all it wants
                _ => return None,
            };
            out.push(Stmt::Expr(e2, None));
            Some(out)
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            if let Some((_, d)) = &init.diverge {
                if has_ret(&init.expr) { return None; }
                let (yes, no) = (block(tail(rest.to_vec(), copies)?), block(tail(stmts_of(d), copies)?));
                let (e, p) = (&init.expr, &l.pat);
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #yes, _ => #no }), None));
                return Some(out);
            }
            let Expr::Match(m) = &*init.expr else { return None };
            if has_ret(&m.expr) { return None; }
            let mut m = m.clone();
            for a in &mut m.arms {
                let s = stmts_of(&a.body);
                let b = if leaves(&s) { tail(s, copies)? } else {
                    if has_ret(&a.body) { return None; }
                    *copies += 1; if *copies > 6 { return None; }
                    let mut l = l.clone();
                    l.init.as_mut().unwrap().expr = a.body.clone();
                    let mut v = vec![Stmt::Local(l)]; v.extend(tail(rest.to_vec(), copies)?); v
                };
                a.body = Box::new(eblock(block(b))); a.comma = Some(Default::default());
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
            Some(out)
        }
        _ => None,
    }
}

struct Calls<'a> { hs: &'a BTreeMap<String, FnInfo>, uniq: usize, did: bool }
impl<'a> Calls<'a> {
    fn put(&mut self, f: &FnInfo, recv: Option<&Expr>, args: &[Expr]) -> Option<Expr> {
        self.uniq += 1;
        let suf = format!("__h{}", self.uniq);
        let mut b = f.block.clone();
        let mut names = Bound(BTreeSet::new());
        names.visit_block_mut(&mut b);
        let mut pre: Vec<Stmt> = vec![];
        let (mut subst, mut place): (BTreeMap<String, Expr>, BTreeMap<String, Expr>) = Default::default();
        let mut args = args.iter();
        for p in &f.sig.inputs {
            match p {
                FnArg::Receiver(r) => {
                    let e = recv?;
                    if r.mutability.is_some() && r.reference.is_none() { return None; }
                    if simple(e) { subst.insert("self".into(), e.clone()); } else if r.mutability.is_none() && r.reference.is_some() { let n = Ident::new(&format!("me{}", suf), proc_macro2::Span::call_site()); pre.push(parse_quote!(let #n = &(#e);)); subst.insert("self".into(), parse_quote!(#n)); } else if r.reference.is_none() { let n = Ident::new(&format!("me{}", suf), proc_macro2::Span::call_site()); pre.push(parse_quote!(let #n = #e;)); subst.insert("self".into(), parse_quote!(#n)); } else { return None; }
                }
                FnArg::Typed(t) => {
                    let a = args.next()?;
                    let Pat::Ident(pi) = &*t.pat else { return None };
                    if pi.by_ref.is_some() || pi.subpat.is_some() { return None; }
                    let n = pi.ident.to_string();
                    names.0.insert(n.clone());
                    if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some()) {
                        match a {
                            Expr::Reference(r) if r.mutability.is_some() && simple(&r.expr) => { place.insert(n, (*r.expr).clone()); }
                            Expr::Path(_) => { subst.insert(n, a.clone()); }
                            _ => return None,
                        }
                    } else {
                        if matches!(&*t.ty, Type::ImplTrait(_)) || t.ty.to_token_stream().to_string().contains("dyn") { return None; }
                        let (id, m, ty) = (Ident::new(&format!("{}{}", n, suf), proc_macro2::Span::call_site()), &pi.mutability, &t.ty);
                        pre.push(if matches!(&**ty, Type::Reference(_)) { parse_quote!(let #m #id = #a;) } else { parse_quote!(let #m #id: #ty = #a;) });
                    }
                }
            }
        }
        if args.next().is_some() { return None; }
        let mut r = Ren { names: &names.0, subst: &subst, place: &place, suf: &suf, slf: if f.slf_text.is_empty() { None } else { Some(parse_str(&f.slf_text).ok()?) }, bad: false };
        r.visit_block_mut(&mut b);
        if r.bad { return None; }
        pre.extend(b.stmts);
        self.did = true;
        Some(eblock(block(pre)))
    }
}
/// a variable, or a field of one
fn simple(e: &Expr) -> bool { match e { Expr::Path(p) => p.path.segments.len() == 1, Expr::Field(f) => simple(&f.base), Expr::Paren(p) => simple(&p.expr), Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => simple(expr), _ => false } }
impl<'a> VisitMut for Calls<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let r = match &*e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.qself.is_none() => {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    match self.hs.get(&n).cloned() { Some(f) if !f.sig.inputs.iter().any(|x| matches!(x, FnArg::Receiver(_))) => { let a: Vec<Expr> = c.args.iter().cloned().collect(); self.put(&f, None, &a) } _ => None }
                }
                _ => None,
            },
            Expr::MethodCall(m) => match self.hs.get(&m.method.to_string()).cloned() { Some(f) if f.sig.inputs.iter().any(|x| matches!(x, FnArg::Receiver(_))) => { let a: Vec<Expr> = m.args.iter().cloned().collect(); let r = (*m.receiver).clone(); self.put(&f, Some(&r), &a) } _ => None },
            _ => None,
        };
        if let Some(x) = r { *e = x; }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let before = self.uniq;
            let mut v = v;
            for e in v.iter_mut() { self.visit_expr_mut(e); }
            if self.uniq != before { m.tokens = v.to_token_stream(); }
        }
    }
}
/// the names a body binds
struct Bound(BTreeSet<String>);
impl VisitMut for Bound {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.0.insert(n); } visit_mut::visit_pat_ident_mut(self, p); }
}
struct Ren<'a> { names: &'a BTreeSet<String>, subst: &'a BTreeMap<String, Expr>, place: &'a BTreeMap<String, Expr>, suf: &'a str, slf: Option<Type>, bad: bool }
impl<'a> Ren<'a> {
    fn at(&self, e: &Expr) -> Option<String> { match e { Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()), Expr::Paren(p) => self.at(&p.expr), _ => None } }
    fn placed(&self, e: &Expr) -> Option<Expr> { self.at(e).and_then(|n| self.place.get(&n).cloned()) }
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if self.names.contains(&n) { if self.place.contains_key(&n) || self.subst.contains_key(&n) { self.bad = true; } p.ident = Ident::new(&format!("{}{}", n, self.suf), p.ident.span()); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) { if p.colon_token.is_none() { p.colon_token = Some(Default::default()); } visit_mut::visit_field_pat_mut(self, p); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // the place behind a `&mut` parameter
        match e {
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => if let Some(x) = self.placed(expr) { *e = x; return; },
            Expr::MethodCall(m) => if let Some(x) = self.placed(&m.receiver) { m.receiver = Box::new(x); for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; },
            Expr::Field(f) => if let Some(x) = self.placed(&f.base) { f.base = Box::new(x); return; },
            Expr::Index(i) => if let Some(x) = self.placed(&i.expr) { i.expr = Box::new(x); self.visit_expr_mut(&mut i.index); return; },
            Expr::Path(_) => {
                if let Some(x) = self.placed(e) { *e = parse_quote!(&mut #x); return; }
                if let Some(x) = self.at(e).and_then(|n| self.subst.get(&n).cloned()) { *e = x; return; }
                if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { let n = i.to_string(); if self.names.contains(&n) { let i = Ident::new(&format!("{}{}", n, self.suf), i.span()); *e = parse_quote!(#i); return; } } }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.first().map_or(false, |s| s.ident == "Self") { match &self.slf { Some(Type::Path(t)) if t.path.segments.len() == 1 && t.path.segments[0].arguments.is_empty() || p.segments.len() == 1 => { if let Some(Type::Path(t)) = &self.slf { p.segments[0] = t.path.segments[0].clone(); } } _ => self.bad = true } }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t = m.tokens.clone();
        m.tokens = self.toks(t);
    }
}
impl<'a> Ren<'a> {
    fn toks(&mut self, t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::{Group, TokenTree as T};
        let v: Vec<T> = t.into_iter().collect();
        let mut o: Vec<T> = vec![];
        for (i, x) in v.iter().enumerate() {
            match x {
                T::Ident(d) => {
                    let n = d.to_string();
                    let member = i > 0 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == '.') || i > 0 && matches!(&v[i - 1], T::Punct(p) if p.as_char() == ':');
                    if member { o.push(x.clone()); }
                    else if let Some(p) = self.place.get(&n) {
                        // `*p` and `p.m()` are the place itself
                        let star = matches!(o.last(), Some(T::Punct(p)) if p.as_char() == '*') && !matches!(o.len().checked_sub(2).map(|k| &o[k]), Some(T::Ident(_)) | Some(T::Literal(_)) | Some(T::Group(_)));
                        let dot = matches!(v.get(i + 1), Some(T::Punct(p)) if p.as_char() == '.');
                        if star { o.pop(); }
                        if star || dot { o.extend(p.to_token_stream()); } else { o.extend(quote::quote!(&mut #p)); }
                    }
                    else if let Some(p) = self.subst.get(&n) { o.extend(p.to_token_stream()); }
                    else if n == "Self" { self.bad = true; }
                    else if self.names.contains(&n) { o.push(T::Ident(Ident::new(&format!("{}{}", n, self.suf), d.span()))); }
                    else { o.push(x.clone()); }
                }
                T::Group(g) => { let mut h = Group::new(g.delimiter(), self.toks(g.stream())); h.set_span(g.span()); o.push(T::Group(h)); }
                T::Literal(l) => { let s = l.to_string(); if s.starts_with('"') && self.names.iter().any(|n| s.contains(&format!("{{{}", n))) { self.bad = true; } o.push(x.clone()); }
                _ => o.push(x.clone()),
            }
        }
        o.into_iter().collect()
    }
}
