//! Printing Rust expressions in the verifier's dialect.
//!   ex: executable code          sp: the same code as a specification expression (pure code only)
//!   post: a formula relating a piece of code to its result (code that calls functions with contracts)
use crate::krate::*;
use quote::ToTokens;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

pub type Res = std::result::Result<String, String>;
pub type Scope = HashMap<String, Ty>;

pub struct Tr<'a> {
    pub k: &'a Krate,
    /// keys of functions with a functional specification
    pub pure_: &'a BTreeSet<String>,
    /// keys of functions with a relational one (written or derived)
    pub rel: &'a BTreeSet<String>,
    pub slf: Ty,
    pub sc: RefCell<Vec<Scope>>,
    pub uniq: Cell<usize>,
    pub loops: Cell<usize>,
    /// loop annotations: index -> template
    pub tmpl: &'a BTreeMap<usize, Vec<(String, String)>>,
    pub dflt: Vec<(String, String)>,
    /// candidate invariants found not to hold
    pub dropc: &'a BTreeSet<String>,
    pub ieee: bool,
    pub valty: &'a [String],
    pub itemty: &'a [String],
    pub fkey: String,
    pub cands: Cell<usize>,
    pub params: Vec<String>,
    /// loops met that have no annotation
    pub bare_loops: Cell<usize>,
    pub notes: RefCell<Vec<String>>,
    pub mode_p: bool,
    /// loops and recursion are to be shown to end
    pub term: bool,
    /// what strings say matters
    pub text: bool,
    pub closures: Option<String>,
    pub cond: RefCell<String>,
    /// functions that come with conditions
    pub reqs: BTreeSet<String>,
    /// equality through the prelude's own trait
    pub veq: bool,
    /// parameters holding functions
    pub fn_params: BTreeSet<String>,
    pub ret_ty: Ty,
}

fn err<T>(m: impl Into<String>) -> std::result::Result<T, String> { Err(m.into()) }
pub fn toks(x: impl ToTokens) -> String { x.to_token_stream().to_string() }

pub fn method_name(n: &str) -> String {
    match n { "iter" => "vit", "into_iter" => "into_vit", "unwrap" | "expect" => "vunwrap", "abs" => "vabs", "as_ref" => "vref", "pow" => "pow", "get" => "get", "min" => "vmin", "max" => "vmax", "sort" => "vsort", "next" => "vnext", "cmp" => "vcmp", "partial_cmp" => "vpartial_cmp", "hash" => "vhash", n => n }.to_string()
}
const RENAMED_BACK: [&str; 0] = [];

/// methods of the prelude types whose specification form takes the same arguments
const PURE_METHODS: &[&str] = &["vit", "into_vit", "cloned", "copied", "len", "is_empty", "vunwrap", "vref", "clone", "collect", "filter", "map", "fold", "find", "rev", "any", "all", "into_sorted_vec", "to_biguint", "sign", "log", "powf", "is_some", "is_none", "to_vec", "is_nan", "vabs", "count", "first", "last", "contains", "is_negative", "is_zero", "is_one", "skip", "take", "chain", "is_positive", "sqrt", "ln", "exp", "is_finite", "is_infinite", "as_str", "into_iter", "get_or", "enumerate", "reverse"];
const PURE_PATHS: &[&str] = &["BigInt::from", "String::from", "Some", "Vec::new", "Box::new", "Ok", "Err"];

pub fn has_return(b: &impl syn_visit::Vis) -> bool { b.ret() }
pub mod syn_visit {
    use syn::visit::Visit;
    pub trait Vis { fn ret(&self) -> bool; fn brk(&self) -> bool; }
    struct V(bool, bool, usize);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.1 = true; }
        fn visit_expr_continue(&mut self, _: &'a syn::ExprContinue) { self.1 = true; }
    }
    impl Vis for syn::Expr { fn ret(&self) -> bool { let mut v = V(false, false, 0); v.visit_expr(self); v.0 } fn brk(&self) -> bool { let mut v = V(false, false, 0); v.visit_expr(self); v.1 } }
    impl Vis for syn::Block { fn ret(&self) -> bool { let mut v = V(false, false, 0); v.visit_block(self); v.0 } fn brk(&self) -> bool { let mut v = V(false, false, 0); v.visit_block(self); v.1 } }
    impl Vis for syn::Stmt { fn ret(&self) -> bool { let mut v = V(false, false, 0); v.visit_stmt(self); v.0 } fn brk(&self) -> bool { let mut v = V(false, false, 0); v.visit_stmt(self); v.1 } }
}

/// the names a closure or block assigns to or mutates, in order
pub fn mutated(b: &Block) -> Vec<String> {
    use syn::visit::Visit;
    struct V(Vec<String>, Vec<String>);
    fn root(e: &Expr) -> Option<String> { match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root(&f.base), Expr::Paren(p) => root(&p.expr), Expr::Unary(u) => root(&u.expr), Expr::Index(i) => root(&i.expr), _ => None } }
    impl<'a> Visit<'a> for V {
        fn visit_expr_assign(&mut self, e: &'a ExprAssign) { if let Some(n) = root(&e.left) { self.0.push(n); } syn::visit::visit_expr_assign(self, e); }
        fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
            if matches!(e.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)) { if let Some(n) = root(&e.left) { self.0.push(n); } }
            syn::visit::visit_expr_binary(self, e);
        }
        fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
            if matches!(e.method.to_string().as_str(), "push" | "pop" | "append" | "insert" | "remove" | "extend" | "clear" | "next" | "retain" | "swap" | "truncate" | "swap_remove" | "push_back" | "pop_front" | "sort" | "drain" | "entry" | "get_mut" | "reverse" | "dedup" | "vnext") { if let Some(n) = root(&e.receiver) { self.0.push(n); } }
            syn::visit::visit_expr_method_call(self, e);
        }
        fn visit_expr_reference(&mut self, e: &'a ExprReference) { if e.mutability.is_some() { if let Some(n) = root(&e.expr) { self.0.push(n); } } syn::visit::visit_expr_reference(self, e); }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.1.push(p.ident.to_string()); }
    }
    let mut v = V(vec![], vec![]);
    v.visit_block(b);
    let mut r: Vec<String> = vec![];
    for n in v.0 { if !r.contains(&n) && !v.1.contains(&n) { r.push(n); } }
    r
}

impl<'a> Tr<'a> {
    pub fn fresh(&self, p: &str) -> String { let n = self.uniq.get(); self.uniq.set(n + 1); format!("{}__{}", p, n) }
    pub fn push(&self) { self.sc.borrow_mut().push(Scope::new()); }
    pub fn pop(&self) { self.sc.borrow_mut().pop(); }
    pub fn bind(&self, n: &str, t: Ty) { self.sc.borrow_mut().last_mut().unwrap().insert(n.to_string(), t); }
    fn look(&self, n: &str) -> Option<Ty> { self.sc.borrow().iter().rev().find_map(|s| s.get(n).cloned()) }

    // ------------------------------------------------------------------ types
    pub fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Reference(r) => self.ty(&r.expr),
            Expr::Unary(u) => self.ty(&u.expr),
            Expr::Lit(l) => match &l.lit { Lit::Float(_) => Ty::n("F64"), Lit::Bool(_) => Ty::n("bool"), Lit::Str(_) => Ty::n("VStr"), _ => Ty::n("int") },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() { let s = i.to_string(); if s == "self" { return self.slf.clone(); } if let Some(t) = self.look(&s) { return t; } }
                if p.path.segments.len() >= 2 { let s = &p.path.segments[p.path.segments.len() - 2].ident.to_string(); if self.k.types.contains_key(s) { return Ty::n(s); } }
                Ty::Unk
            }
            Expr::Field(f) => { let m = toks(&f.member); let t = self.ty(&f.base); if let Ty::Tup(v) = &t { if let Ok(i) = m.parse::<usize>() { return v.get(i).cloned().unwrap_or(Ty::Unk); } } self.k.field(&t, &m) }
            Expr::Struct(s) => { let n = s.path.segments.last().unwrap().ident.to_string(); if n == "Self" { self.slf.clone() } else { Ty::n(&n) } }
            Expr::Tuple(t) => Ty::Tup(t.elems.iter().map(|x| self.ty(x)).collect()),
            Expr::Binary(b) => match b.op { BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) => { let l = self.ty(&b.left); if l == Ty::n("int") { self.ty(&b.right) } else { l } } _ => Ty::n("bool") },
            Expr::Cast(c) => ty_of(&c.ty, &self.slf),
            Expr::Macro(m) => if m.mac.path.is_ident("vec") { match m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { Ok(v) => Ty::g("Vec", v.first().map(|x| self.ty(x)).unwrap_or(Ty::Unk)), _ => Ty::Unk } } else { Ty::Unk },
            Expr::Call(c) => match self.callee(&c.func) { Callee::Fn(f) => f.ret.clone(), Callee::Variant(n, _) => Ty::n(&n), Callee::Other(s) => match s.as_str() { "BigInt::from" => Ty::n("BigInt"), "Some" => Ty::g("Option", c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk)), "Box::new" => c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk), "Vec::new" => Ty::g("Vec", Ty::Unk), _ => Ty::Unk } },
            Expr::MethodCall(m) => self.ty_method(m),
            Expr::If(i) => { let t = self.ty_block(&i.then_branch); if t == Ty::Unk { if let Some((_, e)) = &i.else_branch { return self.ty(e); } } t }
            Expr::Block(b) => self.ty_block(&b.block),
            Expr::Match(m) => { let t = self.ty(&m.expr); for a in &m.arms { self.push(); self.bind_pat(&a.pat, &t); let r = self.ty(&a.body); self.pop(); if r != Ty::Unk { return r; } } Ty::Unk }
            Expr::Return(r) => r.expr.as_ref().map(|e| self.ty(e)).unwrap_or(Ty::Unk),
            _ => Ty::Unk,
        }
    }
    fn ty_block(&self, b: &Block) -> Ty {
        self.push();
        let mut t = Ty::Unk;
        for s in &b.stmts {
            match s { Stmt::Local(l) => self.bind_local(l), Stmt::Expr(e, None) => t = self.ty(e), Stmt::Expr(e @ Expr::Return(_), _) => t = self.ty(e), _ => {} }
        }
        self.pop();
        t
    }
    pub fn bind_local(&self, l: &Local) {
        let (pat, t) = match &l.pat { Pat::Type(p) => (&*p.pat, ty_of(&p.ty, &self.slf)), p => (p, l.init.as_ref().map(|i| self.ty(&i.expr)).unwrap_or(Ty::Unk)) };
        self.bind_pat(pat, &t);
    }
    pub fn bind_pat(&self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => { if !(i.ident.to_string().chars().next().unwrap().is_uppercase()) { self.bind(&i.ident.to_string(), t.clone()) } }
            Pat::Reference(r) => self.bind_pat(&r.pat, t),
            Pat::Paren(r) => self.bind_pat(&r.pat, t),
            Pat::Type(r) => self.bind_pat(&r.pat, &ty_of(&r.ty, &self.slf)),
            Pat::Tuple(v) => for (i, x) in v.elems.iter().enumerate() { let e = if let Ty::Tup(ts) = t { ts.get(i).cloned().unwrap_or(Ty::Unk) } else { Ty::Unk }; self.bind_pat(x, &e); },
            Pat::Or(o) => { if let Some(c) = o.cases.first() { self.bind_pat(c, t) } }
            Pat::TupleStruct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let mut ts: Option<Vec<Ty>> = None;
                if n == "Some" || n == "Ok" { if let Ty::N(_, a) = t { ts = a.first().map(|x| vec![x.clone()]); } }
                else if s.path.segments.len() >= 2 { let en = s.path.segments[s.path.segments.len() - 2].ident.to_string(); let en = if en == "Self" { if let Ty::N(n, _) = &self.slf { n.clone() } else { en } } else { en }; ts = self.k.variant(&en, &n); }
                let ts = ts.unwrap_or_default();
                for (i, x) in s.elems.iter().enumerate() { self.bind_pat(x, &ts.get(i).cloned().unwrap_or(Ty::Unk)); }
            }
            Pat::Struct(s) => for f in &s.fields { self.bind_pat(&f.pat, &self.k.field(t, &toks(&f.member))); },
            _ => {}
        }
    }
    fn ty_method(&self, m: &ExprMethodCall) -> Ty {
        let t = self.ty(&m.receiver);
        let n = m.method.to_string();
        if let Some(f) = self.k.inherent(&t, &n) { return f.ret.clone(); }
        let a0 = if let Ty::N(_, a) = &t { a.first().cloned().unwrap_or(Ty::Unk) } else { Ty::Unk };
        let clo = |i: usize| -> Ty { if let Some(Expr::Closure(c)) = m.args.iter().nth(i).map(strip_ref) { self.push(); if let Some(p) = c.inputs.first() { self.bind_pat(p, &a0); } let r = self.ty(&c.body); self.pop(); r } else { Ty::Unk } };
        match n.as_str() {
            "clone" | "cloned" | "copied" | "filter" | "rev" | "as_ref" | "opposite" | "skip" | "take" | "chain" | "to_vec" | "abs" if !matches!(&t, Ty::N(s, _) if s == "Option" && n == "filter") => return t,
            "iter" | "into_iter" => if let Ty::N(s, a) = &t { if s == "HashMap" { return Ty::g("It", Ty::Tup(a.clone())); } return Ty::g("It", a0); },
            "map" => return Ty::g(if matches!(&t, Ty::N(s, _) if s == "Option") { "Option" } else { "It" }, clo(0)),
            "fold" => return m.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk),
            "find" | "next" | "pop" | "first" | "last" => return Ty::g("Option", a0),
            "unwrap" | "expect" | "unwrap_or" => return a0,
            "remove" | "insert" => if let Ty::N(s, a) = &t { if s == "HashMap" { return Ty::g("Option", a.get(1).cloned().unwrap_or(Ty::Unk)); } },
            "len" | "count" => return Ty::n("usize"),
            "is_empty" | "contains_key" | "any" | "all" | "is_some" | "is_none" => return Ty::n("bool"),
            "into_sorted_vec" | "collect" => return Ty::g("Vec", a0),
            _ => {}
        }
        let c = self.k.named(&n);
        if !c.is_empty() && c.iter().all(|f| f.ret == c[0].ret) { return c[0].ret.clone(); }
        Ty::Unk
    }

    // ------------------------------------------------------------------ names
    pub fn path(&self, p: &Path) -> String {
        let mut segs: Vec<String> = p.segments.iter().map(|s| { let a = match &s.arguments { PathArguments::AngleBracketed(a) => { let mut a = a.clone(); a.colon2_token = None; format!("::<{}>", a.args.iter().map(|x| match x { GenericArgument::Type(t) => self.type_(t).unwrap_or("_".into()), x => toks(x) }).collect::<Vec<_>>().join(", ")) } _ => String::new() }; format!("{}{}", s.ident, a) }).collect();
        if segs[0] == "std" || segs[0] == "core" {
            let j = segs.join("::");
            if let Some(r) = j.strip_prefix("std::cmp::").or(j.strip_prefix("core::cmp::")) { return r.to_string(); }
            if j.starts_with("std::f64::") || j.starts_with("core::f64::") { return format!("F64::{}()", segs.last().unwrap()); }
            if segs.len() > 2 { segs = segs[segs.len() - 2..].to_vec(); if segs[0].chars().next().unwrap().is_lowercase() { segs.remove(0); } }
        }
        if segs[0] == "crate" || segs[0] == "super" || segs[0] == "self" && segs.len() > 1 { while segs.len() > 1 && segs[0].chars().next().unwrap().is_lowercase() { segs.remove(0); } }
        if segs[0] == "f64" && segs.len() > 1 { return format!("F64::{}()", segs[1]); }
        if segs[0] == "String" { segs[0] = "VStr".into(); }
        if segs[0] == "BinaryHeap" || segs[0] == "HashMap" { return segs.join("::"); }
        segs.join("::")
    }
    pub fn type_(&self, t: &Type) -> Res {
        Ok(match t {
            Type::Reference(r) => format!("&{}{}{}", r.lifetime.as_ref().map(|l| format!("{} ", l)).unwrap_or_default(), if r.mutability.is_some() { "mut " } else { "" }, self.type_(&r.elem)?),
            Type::Paren(p) => self.type_(&p.elem)?,
            Type::Infer(_) => "_".into(),
            Type::Slice(s) => format!("Vec<{}>", self.type_(&s.elem)?),
            Type::Tuple(t) => format!("({}{})", t.elems.iter().map(|x| self.type_(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "), if t.elems.len() == 1 { "," } else { "" }),
            Type::Path(p) if p.qself.is_none() => {
                let s = p.path.segments.last().unwrap();
                let n = match s.ident.to_string().as_str() { "f64" => "F64".to_string(), "String" | "str" => "VStr".to_string(), n => n.to_string() };
                if n == "Output" { return Ok("Self::O".into()); }
                match &s.arguments {
                    PathArguments::None => n,
                    PathArguments::AngleBracketed(a) => format!("{}<{}>", n, a.args.iter().map(|x| match x { GenericArgument::Type(t) => self.type_(t), x => Ok(toks(x)) }).collect::<std::result::Result<Vec<_>, _>>()?.join(", ")),
                    _ => return err("function type"),
                }
            }
            _ => return err(format!("type {}", toks(t))),
        })
    }
    pub fn pat(&self, p: &Pat) -> Res {
        Ok(match p {
            Pat::Ident(i) => { if i.by_ref.is_some() { return err("ref pattern"); } let sub = match &i.subpat { Some((_, s)) => format!(" @ {}", self.pat(s)?), None => String::new() }; format!("{}{}{}", if i.mutability.is_some() { "mut " } else { "" }, i.ident, sub) }
            Pat::Wild(_) => "_".into(),
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat)?),
            Pat::Paren(r) => format!("({})", self.pat(&r.pat)?),
            Pat::Path(p) => self.path(&p.path),
            Pat::Tuple(t) => format!("({})", t.elems.iter().map(|x| self.pat(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", ")),
            Pat::TupleStruct(t) => format!("{}({})", self.path(&t.path), t.elems.iter().map(|x| self.pat(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", ")),
            Pat::Struct(s) => format!("{} {{ {}{} }}", self.path(&s.path), s.fields.iter().map(|f| Ok(format!("{}: {}", toks(&f.member), self.pat(&f.pat)?))).collect::<std::result::Result<Vec<_>, String>>()?.join(", "), if s.rest.is_some() { ", .." } else { "" }),
            Pat::Or(o) => o.cases.iter().map(|x| self.pat(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(" | "),
            Pat::Type(t) => format!("{}: {}", self.pat(&t.pat)?, self.type_(&t.ty)?),
            Pat::Rest(_) => "..".into(),
            Pat::Lit(l) => match &l.lit { Lit::Int(_) | Lit::Bool(_) => toks(l), _ => return err("literal pattern") },
            _ => return err(format!("pattern {}", toks(p))),
        })
    }
    pub fn callee(&self, f: &Expr) -> Callee<'a> {
        let Expr::Path(p) = f else { return Callee::Other("?".into()) };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.last().unwrap().clone();
        if segs.len() >= 2 {
            let t = &p.path.segments[segs.len() - 2];
            let tn = t.ident.to_string();
            let mut tt = if tn == "Self" { self.slf.clone() } else { Ty::n(&tn) };
            if let PathArguments::AngleBracketed(a) = &t.arguments { if let (Ty::N(_, v), Some(GenericArgument::Type(x))) = (&mut tt, a.args.first()) { *v = vec![ty_of(x, &self.slf)]; } }
            if let Ty::N(en, _) = &tt { if self.k.variant(en, &n).is_some() { return Callee::Variant(en.clone(), n); } }
            if let Some(f) = self.k.inherent(&tt, &n) { return Callee::Fn(f); }
            let c: Vec<&FnInfo> = self.k.named(&n).into_iter().filter(|f| match (&f.slf, &tt) { (Some(Ty::N(a, _)), Ty::N(b, bv)) => a == b && bv.is_empty(), _ => false }).collect();
            if c.len() == 1 { return Callee::Fn(c[0]); }
            return Callee::Other(segs[segs.len() - 2..].join("::"));
        }
        if let Some(f) = self.k.free(&n) { return Callee::Fn(f); }
        Callee::Other(n)
    }
    pub fn method_fn(&self, m: &ExprMethodCall) -> Option<std::result::Result<&'a FnInfo, ()>> {
        let t = self.ty(&m.receiver);
        let n = m.method.to_string();
        if let Some(f) = self.k.inherent(&t, &n) { return Some(Ok(f)); }
        let c = self.k.named(&n);
        if c.is_empty() { return None; }
        if t != Ty::Unk { return None; }
        if c.len() == 1 && !PURE_METHODS.contains(&method_name(&n).as_str()) { return Some(Ok(c[0])); }
        if PURE_METHODS.contains(&method_name(&n).as_str()) { return None; }
        Some(Err(()))
    }

    // ------------------------------------------------------------------ specification form
    pub fn sp_block(&self, b: &Block) -> Res { self.push(); let r = self.sp_stmts(&b.stmts.iter().collect::<Vec<_>>()); self.pop(); r }
    /// statements whose value is that of the tail, or of the first return met
    pub fn sp_stmts(&self, s: &[&Stmt]) -> Res {
        let Some((h, rest)) = s.split_first() else { return err("no value") };
        match h {
            Stmt::Local(l) => {
                let i = l.init.as_ref().ok_or("let without value")?;
                if i.diverge.is_some() { return err("let else"); }
                if has_return(&*i.expr) { return err("return inside let"); }
                if let Pat::Ident(p) = &l.pat { if p.mutability.is_some() { return err("mutable local"); } }
                if let Pat::Type(t) = &l.pat { if let Pat::Ident(p) = &*t.pat { if p.mutability.is_some() { return err("mutable local"); } } }
                let v = self.sp(&i.expr)?;
                let p = self.pat(&l.pat)?;
                self.push();
                self.bind_local(l);
                let r = self.sp_stmts(rest);
                self.pop();
                Ok(format!("{{ let {} = {}; {} }}", p, v, r?))
            }
            Stmt::Expr(e, semi) => self.sp_flow(e, rest, semi.is_some()),
            Stmt::Macro(m) => if is_panic(&m.mac) { Ok("arbitrary()".into()) } else { err("macro statement") },
            Stmt::Item(_) => self.sp_stmts(rest),
        }
    }
    /// an expression in statement position, followed by `rest`
    fn sp_flow(&self, e: &Expr, rest: &[&Stmt], semi: bool) -> Res {
        let tail = rest.is_empty() && !semi;
        let with = |b: &Block| -> Res { self.push(); let mut v: Vec<&Stmt> = b.stmts.iter().collect(); let own; if !tail { if let Some(Stmt::Expr(x, None)) = v.last() { own = Stmt::Expr(x.clone(), Some(Default::default())); let n = v.len(); v[n - 1] = &own; } v.extend(rest.iter()); let r = self.sp_stmts(&v); self.pop(); return r; } let r = self.sp_stmts(&v); self.pop(); r };
        match e {
            Expr::Return(r) => self.sp(r.expr.as_ref().ok_or("return nothing")?),
            Expr::Paren(p) => self.sp_flow(&p.expr, rest, semi),
            Expr::If(i) if tail || has_return(e) => {
                let els = match &i.else_branch { Some((_, e)) => match &**e { Expr::Block(b) => with(&b.block)?, e2 => self.sp_flow(e2, rest, semi)? }, None => { if tail { return err("if without else") } self.sp_stmts(rest)? } };
                if let Expr::Let(l) = &*i.cond {
                    let t = self.ty(&l.expr);
                    let sc = self.sp(&l.expr)?;
                    self.push();
                    self.bind_pat(&l.pat, &t);
                    let th = with(&i.then_branch);
                    self.pop();
                    return Ok(format!("(match {} {{ {} => {}, _ => {} }})", sc, self.pat(&l.pat)?, th?, els));
                }
                Ok(format!("(if {} {{ {} }} else {{ {} }})", self.sp(&i.cond)?, with(&i.then_branch)?, els))
            }
            Expr::Match(m) if tail || has_return(e) => {
                let t = self.ty(&m.expr);
                let mut arms = vec![];
                for a in &m.arms {
                    self.push();
                    self.bind_pat(&a.pat, &t);
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.sp(g)?), None => String::new() };
                    let b = match &*a.body { Expr::Block(b) => with(&b.block), x => self.sp_flow(x, rest, semi) };
                    self.pop();
                    arms.push(format!("{}{} => {}", self.pat(&a.pat)?, g, b?));
                }
                Ok(format!("(match {} {{ {} }})", self.sp(&m.expr)?, arms.join(", ")))
            }
            Expr::Block(b) => with(&b.block),
            Expr::Macro(m) if is_panic(&m.mac) => Ok("arbitrary()".into()),
            Expr::Tuple(t) if t.elems.is_empty() && !tail => self.sp_stmts(rest),
            e if tail => self.sp(e),
            e => { if matches!(e, Expr::Path(_) | Expr::Lit(_)) { self.sp_stmts(rest) } else { err(format!("statement {}", toks(e).chars().take(60).collect::<String>())) } }
        }
    }
    pub fn sp(&self, e: &Expr) -> Res {
        Ok(match e {
            Expr::Lit(l) => match &l.lit { Lit::Float(f) if self.ieee => format!("fl({})", real_lit(f)?), Lit::Float(f) => format!("F64 {{ g: Ghost({}) }}", real_lit(f)?), Lit::Int(_) | Lit::Bool(_) => toks(&l.lit), Lit::Str(s) if self.text => format!("(&VStr {{ g: Ghost({}) }})", chars(&s.value())), Lit::Char(_) if self.text => toks(&l.lit), _ => return err("literal") },
            Expr::Path(p) => self.path(&p.path),
            Expr::Paren(p) => format!("({})", self.sp(&p.expr)?),
            Expr::Reference(r) => { if r.mutability.is_some() { return err("&mut"); } format!("&{}", self.sp(&r.expr)?) }
            Expr::Field(f) => format!("{}.{}", self.sp(&f.base)?, toks(&f.member)),
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => format!("!({})", self.sp(&u.expr)?),
                UnOp::Deref(_) => format!("(*{})", self.sp(&u.expr)?),
                UnOp::Neg(_) => match strip(&u.expr) { Expr::Lit(l) => match &l.lit { Lit::Float(f) if self.ieee => format!("fd(fneg(fl({}).g@))", real_lit(f)?), Lit::Float(f) => format!("F64 {{ g: Ghost(-{}) }}", real_lit(f)?), _ => format!("-{}", self.sp(&u.expr)?) }, _ => { self.pure_op(&u.expr)?; format!("OpNeg::op_neg__s({})", self.sp(&u.expr)?) } },
                _ => return err("unary"),
            },
            Expr::Binary(b) => {
                let (l, r) = (self.sp(&b.left)?, self.sp(&b.right)?);
                if let Some((t, m)) = op_name(&b.op) {
                    self.pure_op(&b.left)?;
                    self.pure_op(&b.right)?;
                    let (lt, rt) = (self.ty(&b.left), self.ty(&b.right));
                    if is_num(&lt) && is_num(&rt) { return Ok(format!("(({}) {} ({}))", l, toks(&b.op), r)); }
                    return Ok(format!("{}::{}__s({}, {})", t, m, l, r));
                }
                match b.op {
                    BinOp::And(_) => format!("(({}) && ({}))", l, r),
                    BinOp::Or(_) => format!("(({}) || ({}))", l, r),
                    // doubles: equality is not identity
                    BinOp::Eq(_) | BinOp::Ne(_) if self.ieee && { let t = format!("{} {}", self.ty(&b.left).show(), self.ty(&b.right).show()); t.contains("F64") || t.contains("f64") || t.contains("Expression") } => format!("{}{}(&*({}), &*({}))", if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" }, if self.veq { "VEqS::veq__s" } else { "vstd::std_specs::cmp::PartialEqSpec::eq_spec" }, self.sp_ref(&b.left)?, self.sp_ref(&b.right)?),
                    BinOp::Eq(_) => format!("(({}) == ({}))", l, r),
                    BinOp::Ne(_) => format!("(({}) != ({}))", l, r),
                    BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                        if is_num(&self.ty(&b.left)) { return Ok(format!("(({}) {} ({}))", l, toks(&b.op), r)); }
                        let m = match b.op { BinOp::Lt(_) => "slt", BinOp::Le(_) => "sle", BinOp::Gt(_) => "sgt", _ => "sge" };
                        format!("SOrd::{}({}, {})", m, l, r)
                    }
                    _ => return err(format!("operator {}", toks(&b.op))),
                }
            }
            Expr::Cast(c) => { let t = self.type_(&c.ty)?; match t.as_str() { "F64" => format!("AsF64::as_f64__s({})", self.sp(&c.expr)?), t => format!("AsInt::as_{}__s({})", t, self.sp(&c.expr)?) } }
            Expr::Tuple(t) => format!("({})", t.elems.iter().map(|x| self.sp(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", ")),
            Expr::Struct(s) => { if s.rest.is_some() { return err("struct update"); } format!("{} {{ {} }}", self.path(&s.path), s.fields.iter().map(|f| Ok(format!("{}: {}", toks(&f.member), self.sp(&f.expr)?))).collect::<std::result::Result<Vec<_>, String>>()?.join(", ")) }
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => self.sp_flow(e, &[], false)?,
            Expr::Return(r) => self.sp(r.expr.as_ref().ok_or("return nothing")?)?,
            Expr::Macro(m) => {
                if is_panic(&m.mac) { return Ok("arbitrary()".into()); }
                if m.mac.path.is_ident("vec") { let v = vec_args(&m.mac)?; return Ok(format!("Vec {{ g: Ghost(seq![{}]) }}", v.iter().map(|x| self.sp(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "))); }
                if m.mac.path.is_ident("matches") { return self.sp(&matches_expr(&m.mac)?); }
                if m.mac.path.is_ident("format") { if let Some(e) = format_one(&m.mac) { return Ok(format!("VFmt::vfmt__s(&{})", self.sp(&e)?)); } }
                return err(format!("macro {}", toks(&m.mac.path)));
            }
            Expr::Call(c) => {
                let args = || c.args.iter().map(|a| self.sp(a)).collect::<std::result::Result<Vec<_>, _>>();
                match self.callee(&c.func) {
                    Callee::Variant(..) => format!("{}({})", self.sp(&c.func)?, args()?.join(", ")),
                    Callee::Fn(f) => {
                        if !self.pure_.contains(&f.key) { return err(format!("call of {}", f.key)); }
                        let Expr::Path(p) = &*c.func else { return err("call") };
                        let a = args()?.into_iter().zip(&f.params).zip(&c.args).map(|((a, q), x)| if is_num(&q.1) && is_num(&self.ty(x)) { format!("(({}) as {})", a, q.1.show()) } else { a }).collect::<Vec<_>>();
                        format!("{}__s({})", self.path(&p.path), a.join(", "))
                    }
                    Callee::Other(s) => {
                        let Expr::Path(p) = &*c.func else { return err("call") };
                        let full = self.path(&p.path);
                        if s == "Some" || s == "Ok" || s == "Err" { return Ok(format!("{}({})", s, args()?.join(", "))); }
                        if s == "Box::new" { return Ok(format!("Box::new({})", args()?.join(", "))); }
                        if full.starts_with("num::") || PURE_PATHS.contains(&s.as_str()) { format!("{}({})", spec_path(&full), args()?.join(", ")) } else { return err(format!("call of {}", full)) }
                    }
                }
            }
            Expr::MethodCall(m) => self.sp_method(m)?,
            _ => return err(format!("expression {}", toks(e).chars().take(60).collect::<String>())),
        })
    }
    fn pure_op(&self, e: &Expr) -> std::result::Result<(), String> { let t = self.ty(e); if t.mentions("Expression") { err(format!("operator on {}", t.show())) } else { Ok(()) } }
    fn sp_method(&self, m: &ExprMethodCall) -> Res {
        let recv = self.sp(&m.receiver)?;
        let n = m.method.to_string();
        if let Some(f) = self.method_fn(m) {
            let f = f.map_err(|_| format!("method {} of unknown type", n))?;
            if !self.pure_.contains(&f.key) { return err(format!("call of {}", f.key)); }
            let args = m.args.iter().map(|a| self.sp_arg(a, &f.name, m)).collect::<std::result::Result<Vec<_>, _>>()?;
            return Ok(format!("{}.{}__s({})", recv, n, args.join(", ")));
        }
        let v = method_name(&n);
        if !PURE_METHODS.contains(&v.as_str()) { return err(format!("method {}", n)); }
        let args = m.args.iter().map(|a| self.sp_arg(a, &v, m)).collect::<std::result::Result<Vec<_>, _>>()?;
        let turbo = m.turbofish.as_ref().map(|t| toks(t)).unwrap_or_default();
        if v == "len" || v == "count" { return Ok(format!("{}.len__i()", recv)); }
        if n == "expect" { return Ok(format!("{}.vunwrap__s()", recv)); }
        Ok(format!("{}.{}__s{}({})", recv, v, turbo, args.join(", ")))
    }
    fn sp_arg(&self, a: &Expr, _f: &str, m: &ExprMethodCall) -> Res {
        match strip_ref(a) {
            Expr::Closure(c) => self.sp_lambda(c, m),
            Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.fn_params.contains(&i.to_string())) => Ok(toks(p)),
            _ => self.sp(a),
        }
    }
    /// element type, and whether the closure receives it by value
    fn elem(&self, m: &ExprMethodCall) -> (Ty, bool) {
        let t = self.ty(&m.receiver);
        let el = if let Ty::N(_, a) = &t { a.first().cloned().unwrap_or(Ty::Unk) } else { Ty::Unk };
        if let Some(Ok(f)) = self.method_fn(m) { let _ = f; return (Ty::n("Expression"), false); }
        let n = m.method.to_string();
        let owned = matches!(n.as_str(), "map" | "fold" | "for_each" | "any" | "all") && chain_owned(&m.receiver) || matches!(&t, Ty::N(s, _) if s == "Option" && n == "map" && chain_owned(&m.receiver));
        (el, owned)
    }
    fn closure_params(&self, c: &ExprClosure, m: &ExprMethodCall) -> std::result::Result<Vec<(String, Vec<(String, String)>, bool, Ty)>, String> {
        // name, projections (name, suffix), by value, type
        let (el, owned) = self.elem(m);
        let k = c.inputs.len();
        let mut r = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let (ty, ow) = if k == 2 && i == 0 { (m.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unk), true) } else { (el.clone(), owned) };
            let mut p = p;
            while let Pat::Type(t) = p { p = &t.pat; }
            let mut by = ow;
            let mut q = p;
            while let Pat::Reference(x) = q { q = &x.pat; by = true; }
            while let Pat::Paren(x) = q { q = &x.pat; }
            match q {
                Pat::Ident(x) => { if matches!(p, Pat::Reference(_)) { return err("closure parameter pattern"); } r.push((x.ident.to_string(), vec![], ow, ty)) }
                Pat::Wild(_) => r.push((self.fresh("w"), vec![], ow, ty)),
                Pat::Tuple(t) => { let mut v = vec![]; for (j, x) in t.elems.iter().enumerate() { match x { Pat::Ident(y) => v.push((y.ident.to_string(), format!(".{}", j))), Pat::Wild(_) => {}, Pat::Reference(y) => if let Pat::Ident(z) = &*y.pat { v.push((z.ident.to_string(), format!(".{}", j))) } else { return err("closure parameter pattern") }, _ => return err("closure parameter pattern") } } let _ = by; r.push((self.fresh("p"), v, ow, ty)) }
                _ => return err("closure parameter pattern"),
            }
        }
        Ok(r)
    }
    fn bind_params(&self, ps: &[(String, Vec<(String, String)>, bool, Ty)]) {
        for (n, v, _, t) in ps { self.bind(n, t.clone()); for (m, s) in v { let i: usize = s[1..].parse().unwrap(); self.bind(m, if let Ty::Tup(ts) = t { ts.get(i).cloned().unwrap_or(Ty::Unk) } else { Ty::Unk }); } }
    }
    fn projections(ps: &[(String, Vec<(String, String)>, bool, Ty)]) -> String { ps.iter().flat_map(|(n, v, _, _)| v.iter().map(move |(m, s)| format!("let {} = &{}{}; ", m, n, s))).collect() }
    fn closure_body_sp(&self, c: &ExprClosure) -> Res { match &*c.body { Expr::Block(b) => self.sp_block(&b.block), e => self.sp_flow(e, &[], false) } }
    fn sp_lambda(&self, c: &ExprClosure, m: &ExprMethodCall) -> Res {
        let ps = self.closure_params(c, m)?;
        self.push();
        self.bind_params(&ps);
        let b = self.closure_body_sp(c);
        self.pop();
        Ok(format!("|{}| {{ {}{}{} }}", ps.iter().map(|p| format!("{}__v", p.0)).collect::<Vec<_>>().join(", "), ps.iter().map(|p| format!("let {} = {}{}__v; ", p.0, if p.2 { "" } else { "&" }, p.0)).collect::<String>(), Self::projections(&ps), b?))
    }

    // ------------------------------------------------------------------ relational form
    pub fn post_stmts(&self, s: &[&Stmt], r: &str) -> Res {
        let Some((h, rest)) = s.split_first() else { return Ok("true".into()) };
        match h {
            Stmt::Local(l) => {
                let i = l.init.as_ref().ok_or("let without value")?;
                if i.diverge.is_some() || has_return(&*i.expr) { return err("let"); }
                let is_mut = |p: &Pat| if let Pat::Ident(p) = p { p.mutability.is_some() } else { false };
                if is_mut(&l.pat) || matches!(&l.pat, Pat::Type(t) if is_mut(&t.pat)) { return err("mutable local"); }
                let p = self.pat(&l.pat)?;
                let v = match self.sp(&i.expr) { Ok(v) => Ok(v), Err(_) => { let t = self.fresh("t"); self.post(&i.expr, &t).map_err(|e| e).map(|f| format!("\u{1}{}\u{2}{}", t, f)) } }?;
                self.push();
                self.bind_local(l);
                let k = self.post_stmts(rest, r);
                self.pop();
                let k = k?;
                if let Some(x) = v.strip_prefix('\u{1}') { let (t, f) = x.split_once('\u{2}').unwrap(); return Ok(exq(t, f, &format!("{{ let {} = {}; {} }}", p, t, k))); }
                Ok(format!("{{ let {} = {}; {} }}", p, v, k))
            }
            Stmt::Expr(e, semi) => self.post_flow(e, rest, semi.is_some(), r),
            Stmt::Macro(m) => if is_panic(&m.mac) { Ok("false".into()) } else { err("macro statement") },
            Stmt::Item(_) => self.post_stmts(rest, r),
        }
    }
    fn post_flow(&self, e: &Expr, rest: &[&Stmt], semi: bool, r: &str) -> Res {
        let tail = rest.is_empty() && !semi;
        let with = |b: &Block| -> Res { self.push(); let mut v: Vec<&Stmt> = b.stmts.iter().collect(); let own; if !tail { if let Some(Stmt::Expr(x, None)) = v.last() { own = Stmt::Expr(x.clone(), Some(Default::default())); let n = v.len(); v[n - 1] = &own; } v.extend(rest.iter()); let q = self.post_stmts(&v, r); self.pop(); return q; } let q = self.post_stmts(&v, r); self.pop(); q };
        match e {
            Expr::Return(x) => self.post(x.expr.as_ref().ok_or("return nothing")?, r),
            Expr::Paren(p) => self.post_flow(&p.expr, rest, semi, r),
            Expr::If(i) if tail || has_return(e) => {
                let els = match &i.else_branch { Some((_, e)) => match &**e { Expr::Block(b) => with(&b.block)?, e2 => self.post_flow(e2, rest, semi, r)? }, None => { if tail { return err("if without else") } self.post_stmts(rest, r)? } };
                if let Expr::Let(l) = &*i.cond {
                    let t = self.ty(&l.expr);
                    let sc = self.sp(&l.expr)?;
                    self.push();
                    self.bind_pat(&l.pat, &t);
                    let th = with(&i.then_branch);
                    self.pop();
                    return Ok(format!("(match {} {{ {} => {}, _ => {} }})", sc, self.pat(&l.pat)?, th?, els));
                }
                Ok(format!("(if {} {{ {} }} else {{ {} }})", self.sp(&i.cond)?, with(&i.then_branch)?, els))
            }
            Expr::Match(m) if tail || has_return(e) => {
                let t = self.ty(&m.expr);
                let mut arms = vec![];
                for a in &m.arms {
                    self.push();
                    self.bind_pat(&a.pat, &t);
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.sp(g)?), None => String::new() };
                    let b = match &*a.body { Expr::Block(b) => with(&b.block), x => self.post_flow(x, rest, semi, r) };
                    self.pop();
                    arms.push(format!("{}{} => {}", self.pat(&a.pat)?, g, b?));
                }
                let (sc, ex) = match self.sp(&m.expr) { Ok(s) => (s, None), Err(_) => { let t = self.fresh("t"); let f = self.post(&m.expr, &t)?; (t.clone(), Some((t, f))) } };
                let body = format!("(match {} {{ {} }})", sc, arms.join(", "));
                Ok(match ex { Some((t, f)) => exq(&t, &f, &body), None => body })
            }
            Expr::Block(b) => with(&b.block),
            Expr::Macro(m) if is_panic(&m.mac) => Ok("false".into()),
            Expr::Tuple(t) if t.elems.is_empty() && !tail => self.post_stmts(rest, r),
            e if tail => self.post(e, r),
            e => { if matches!(e, Expr::Path(_) | Expr::Lit(_)) { self.post_stmts(rest, r) } else { err(format!("statement {}", toks(e).chars().take(60).collect::<String>())) } }
        }
    }
    /// an argument: its specification, or an intermediate value with the formula it satisfies
    fn post_arg(&self, a: &Expr, ex: &mut Vec<(String, String)>) -> Res {
        if let Ok(s) = self.sp(a) { return Ok(s); }
        if let Expr::Reference(r) = a { let s = self.post_arg(&r.expr, ex)?; return Ok(format!("&{}", s)); }
        if let Expr::Paren(p) = a { return self.post_arg(&p.expr, ex); }
        if let Expr::Macro(m) = a { if m.mac.path.is_ident("vec") { let v = vec_args(&m.mac)?; let mut o = vec![]; for x in &v { o.push(self.post_arg(x, ex)?); } return Ok(format!("Vec {{ g: Ghost(seq![{}]) }}", o.join(", "))); } }
        let t = self.fresh("t");
        let f = self.post(a, &t)?;
        ex.push((t.clone(), f));
        Ok(t)
    }
    pub fn post(&self, e: &Expr, r: &str) -> Res {
        if let Ok(s) = self.sp(e) { return Ok(format!("same__({}, {})", r, s)); }
        let mut ex = vec![];
        let body = match e {
            Expr::Paren(p) => return self.post(&p.expr, r),
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::Return(_) => return self.post_flow(e, &[], false, r),
            Expr::Macro(m) if is_panic(&m.mac) => "false".to_string(),
            Expr::Call(c) => match self.callee(&c.func) {
                Callee::Fn(f) => {
                    if !self.rel.contains(&f.key) { return err(format!("call of {}", f.key)); }
                    let mut a = vec![];
                    for x in &c.args { a.push(self.post_arg(x, &mut ex)?); }
                    let Expr::Path(p) = &*c.func else { return err("call") };
                    a.push(r.to_string());
                    format!("{}__post({})", self.path(&p.path), a.join(", "))
                }
                Callee::Variant(en, v) => { let mut a = vec![]; for x in &c.args { a.push(self.post_arg(x, &mut ex)?); } format!("same__({}, {}::{}({}))", r, en, v, a.join(", ")) }
                Callee::Other(s) => return err(format!("call of {}", s)),
            },
            Expr::MethodCall(m) => {
                let Some(Ok(f)) = self.method_fn(m) else {
                    let mut ex1 = vec![];
                    let recv = self.post_arg(&m.receiver, &mut ex1)?;
                    if ex1.is_empty() || !m.args.is_empty() || !PURE_METHODS.contains(&method_name(&m.method.to_string()).as_str()) { return err(format!("method {}", m.method)) }
                    let n = method_name(&m.method.to_string());
                    let b = format!("same__({}, {}.{}__s())", r, recv, n);
                    return Ok(ex1.iter().rev().fold(b, |b, (t, f)| exq(t, f, &b)));
                };
                if !self.rel.contains(&f.key) || f.mut_params { return err(format!("call of {}", f.key)); }
                let recv = self.post_arg(&m.receiver, &mut ex)?;
                let mut a = vec![];
                for x in &m.args { if matches!(strip_ref(x), Expr::Closure(_)) { return err("closure argument"); } a.push(self.post_arg(x, &mut ex)?); }
                a.push(r.to_string());
                format!("{}.{}__post({})", recv, m.method, a.join(", "))
            }
            Expr::Binary(b) => {
                let Some((t, m)) = op_name(&b.op) else { return err(format!("operator {}", toks(&b.op))) };
                let l = self.post_arg(&b.left, &mut ex)?;
                let q = self.post_arg(&b.right, &mut ex)?;
                format!("{}::{}__post({}, {}, {})", t, m, l, q, r)
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) => { let l = self.post_arg(&u.expr, &mut ex)?; format!("OpNeg::op_neg__post({}, {})", l, r) }
            _ => return err(format!("expression {}", toks(e).chars().take(60).collect::<String>())),
        };
        Ok(ex.iter().rev().fold(body, |b, (t, f)| exq(t, f, &b)))
    }

    // ------------------------------------------------------------------ executable form
    pub fn ex_block(&self, b: &Block, out: &mut String) -> std::result::Result<(), String> {
        self.push();
        out.push_str("{\n");
        for s in &b.stmts { self.ex_stmt(s, out)?; }
        out.push_str("}\n");
        self.pop();
        Ok(())
    }
    fn ex_stmt(&self, s: &Stmt, out: &mut String) -> std::result::Result<(), String> {
        match s {
            Stmt::Local(l) => {
                let p = self.pat(&l.pat)?;
                match &l.init { Some(i) => { if i.diverge.is_some() { return err("let else"); } let v = self.ex(&i.expr)?; out.push_str(&format!("let {} = {};\n", p, v)); } None => out.push_str(&format!("let {};\n", p)) }
                self.bind_local(l);
            }
            Stmt::Expr(e, semi) => { let v = self.ex(e)?; out.push_str(&v); let block_like = matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_)); if semi.is_some() || (block_like && false) { out.push(';') } out.push('\n'); }
            Stmt::Macro(m) => { let v = self.ex_macro(&m.mac)?; out.push_str(&v); out.push_str(";\n"); }
            Stmt::Item(Item::Use(_)) => {}
            Stmt::Item(i) => return err(format!("item in function: {}", toks(i).chars().take(40).collect::<String>())),
        }
        Ok(())
    }
    fn ex_macro(&self, m: &Macro) -> Res {
        if is_panic(m) { return Ok("vpanic()".into()); }
        if m.path.is_ident("vec") { let v = vec_args(m)?; let t = self.fresh("v"); let mut o = format!("{{ let mut {}: Vec<_> = Vec::new(); ", t); for x in &v { o.push_str(&format!("{}.push({}); ", t, self.ex(x)?)); } o.push_str(&format!("{} }}", t)); return Ok(o); }
        if m.path.is_ident("matches") { return self.ex(&matches_expr(m)?); }
        // text is written to a formatter that keeps what it is given, and never fails
        if self.text && (m.path.is_ident("write") || m.path.is_ident("writeln")) {
            let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
            let Some(Expr::Path(f)) = v.first() else { return err("written to something that is not a variable") };
            let f = self.path(&f.path);
            return Ok(format!("({{ {} }})", self.pieces(&v.iter().skip(1).cloned().collect::<Vec<_>>(), &f, m.path.is_ident("writeln"))?));
        }
        if self.text && m.path.is_ident("format") {
            let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
            let t = self.fresh("s");
            return Ok(format!("({{ let mut {0} = FState::new(); {1}; {0}.done() }})", t, self.pieces(&v.iter().cloned().collect::<Vec<_>>(), &format!("&mut {}", t), false)?));
        }
        if m.path.is_ident("format") { if let Some(e) = format_one(m) { return Ok(format!("VFmt::vfmt(&{})", self.ex(&e)?)); } return Ok("vformat()".into()); }
        if m.path.is_ident("println") || m.path.is_ident("eprintln") || m.path.is_ident("debug_assert") && !self.mode_p { return Ok("()".into()); }
        if m.path.is_ident("assert") || m.path.is_ident("debug_assert") { let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?; return Ok(format!("vassert({})", self.ex(v.first().ok_or("assert")?)?)); }
        err(format!("macro {}", toks(&m.path)))
    }
    /// the pieces of a format string, written one after the other
    fn pieces(&self, v: &[Expr], f: &str, nl: bool) -> Res {
        let text = match v.first() { Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), None => String::new(), _ => return err("format string") };
        let (mut out, mut lit, mut next) = (vec![], String::new(), 1);
        let c: Vec<char> = text.chars().collect();
        let put = |lit: &mut String, out: &mut Vec<String>| if !lit.is_empty() { for x in lit.chars() { out.push(format!("FState::write_char({}, {:?})", f, x)); } lit.clear(); };
        let mut i = 0;
        while i < c.len() {
            match c[i] {
                '{' if c.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; }
                '}' if c.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; }
                '{' => {
                    let e = (i..c.len()).find(|j| c[*j] == '}').ok_or("format string")?;
                    let n: String = c[i + 1..e].iter().collect();
                    put(&mut lit, &mut out);
                    let a = if n.is_empty() { next += 1; self.ex(v.get(next - 1).ok_or("format string")?)? } else if n.chars().all(|x| x.is_ascii_digit()) { self.ex(v.get(1 + n.parse::<usize>().unwrap()).ok_or("format string")?)? } else if n.chars().all(|x| x.is_alphanumeric() || x == '_') { self.ex(&parse_str::<Expr>(&n).map_err(|e| e.to_string())?)? } else { return err(format!("format {{{}}}", n)) };
                    out.push(format!("VDisp::fmt(&({}), {})", a, f));
                    i = e + 1;
                }
                x => { lit.push(x); i += 1; }
            }
        }
        if nl { lit.push('\n'); }
        put(&mut lit, &mut out);
        if out.is_empty() { out.push(format!("FState::nothing({})", f)); }
        Ok(out.join("; "))
    }
    fn args(&self, args: &punctuated::Punctuated<Expr, Token![,]>, m: Option<&ExprMethodCall>) -> std::result::Result<Vec<String>, String> {
        let mut o = vec![];
        for a in args {
            match strip_ref(a) {
                Expr::Closure(c) => { let m = m.ok_or("closure given to a function")?; o.push(format!("&{}", self.ex_closure(c, m)?.0)); o.push(self.ex_closure(c, m)?.1); }
                Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.fn_params.contains(&i.to_string())) => { let n = p.path.get_ident().unwrap(); o.push(format!("{}", n)); o.push(format!("Ghost({}__p)", n)); }
                _ => o.push(self.ex(a)?),
            }
        }
        Ok(o)
    }
    fn ex_closure(&self, c: &ExprClosure, m: &ExprMethodCall) -> std::result::Result<(String, String), String> {
        if c.capture.is_some() { /* move closures read the same */ }
        let ps = self.closure_params(c, m)?;
        self.push();
        self.bind_params(&ps);
        let r = self.ex_closure1(c, &ps);
        self.pop();
        r
    }
    fn ex_closure1(&self, c: &ExprClosure, ps: &[(String, Vec<(String, String)>, bool, Ty)]) -> std::result::Result<(String, String), String> {
        let proj = Self::projections(ps);
        let mut body = String::new();
        match &*c.body { Expr::Block(b) => { for s in &b.block.stmts { self.ex_stmt(s, &mut body)?; } } e => body = self.ex(e)? };
        let sp = self.closure_body_sp(c);
        let rs = self.fresh("res");
        let heads = ps.iter().map(|p| p.0.clone()).collect::<Vec<_>>().join(", ");
        let vt = ps.iter().map(|p| format!("{}__v{}", p.0, match ty_text(&p.3) { Some(t) => format!(": {}", t), _ => String::new() })).collect::<Vec<_>>().join(", ");
        let vs = ps.iter().map(|p| format!("{}__v{}", p.0, match (&p.3, ty_text(&p.3)) { (Ty::Tup(_), Some(t)) => format!(": {}", t), _ => String::new() })).collect::<Vec<_>>().join(", ");
        let lets: String = ps.iter().map(|p| format!("let {} = {}{}__v; ", p.0, if p.2 { "" } else { "&" }, p.0)).collect();
        let kind = if ps.len() == 2 { "MapSpec2" } else { "MapSpec" };
        let (ens, gh) = match sp {
            Ok(s) => (format!("ensures same__({}, {{ {}{} }})", rs, proj, s), format!("Ghost({}::Fun(|{}| {{ {}{}{} }}))", kind, vs, lets, proj, s)),
            Err(e1) => {
                let q = match &*c.body { Expr::Block(b) => { self.push(); let q = self.post_stmts(&b.block.stmts.iter().collect::<Vec<_>>(), &rs); self.pop(); q } e => self.post_flow(e, &[], false, &rs) };
                match q {
                    Ok(q) => (format!("ensures ({{ {}{} }})", proj, q), format!("Ghost({}::Rel(|{}, {}| {{ {}{}{} }}))", kind, vt, rs, lets, proj, q)),
                    Err(e2) => { self.notes.borrow_mut().push(format!("closure without a specification: {}; {}", e1, e2)); (String::new(), format!("Ghost({}::Unknown)", kind)) }
                }
            }
        };
        let req = if self.mode_p { match self.safe_closure(c) { Ok(s) if s == "true" => String::new(), Ok(s) => format!("requires ({{ {}{} }}), ", proj, s), Err(e) => { self.notes.borrow_mut().push(format!("no safety condition for a closure: {}", e)); String::new() } } } else { String::new() };
        let own = self.fkey.rsplit("::").next().unwrap_or("").to_string();
        let req = match &self.closures {
            Some(t) if self.term && toks(&c.body).split(|x: char| !x.is_alphanumeric() && x != '_').any(|w| w == own) => {
                let mut t = t.clone();
                for (i, p) in self.params.iter().enumerate().rev() { t = t.replace(&format!("${}", i), p); }
                format!("requires ({{ {}{} }}), ", proj, t.replace("$p", &ps[0].0))
            }
            _ => req,
        };
        Ok((format!("|{}| -> ({}: _) {}{}\n{{ {}{} }}", heads, rs, req, ens, proj, body), gh))
    }
    /// a reference to the value of an expression, or the reference that it is
    fn sp_ref(&self, e: &Expr) -> Res { let t = self.sp(e)?; Ok(if self.ty(e).show().starts_with('&') { t } else { format!("&({})", t) }) }
    pub fn ex(&self, e: &Expr) -> Res {
        Ok(match e {
            Expr::Lit(l) => match &l.lit { Lit::Float(f) => format!("F64::lit(Ghost({}))", real_lit(f)?), Lit::Int(_) | Lit::Bool(_) => toks(&l.lit), Lit::Str(s) if self.text => format!("VStr::litc(Ghost({}))", chars(&s.value())), Lit::Char(_) if self.text => toks(&l.lit), Lit::Str(s) => format!("VStr::lit(Ghost({}int))", s.value().bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64)) % 1000000007), _ => return err("literal") },
            Expr::Path(p) => self.path(&p.path),
            Expr::Paren(p) => format!("({})", self.ex(&p.expr)?),
            Expr::Try(t) if self.text => format!("({})?", self.ex(&t.expr)?),
            Expr::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, self.ex(&r.expr)?),
            Expr::Field(f) => format!("{}.{}", self.ex(&f.base)?, toks(&f.member)),
            Expr::Index(i) => format!("(*{}.vidx({}))", self.ex(&i.expr)?, self.ex(&i.index)?),
            Expr::Unary(u) => match u.op {
                UnOp::Not(_) => format!("!({})", self.ex(&u.expr)?),
                UnOp::Deref(_) => format!("(*{})", self.ex(&u.expr)?),
                UnOp::Neg(_) => match strip(&u.expr) { Expr::Lit(l) => match &l.lit { Lit::Float(f) if self.ieee => format!("OpNeg::op_neg(F64::lit(Ghost({})))", real_lit(f)?), Lit::Float(f) => format!("F64::lit(Ghost(-{}))", real_lit(f)?), _ => format!("-{}", self.ex(&u.expr)?) }, _ => format!("OpNeg::op_neg({})", self.ex(&u.expr)?) },
                _ => return err("unary"),
            },
            Expr::Binary(b) => {
                let (l, r) = (self.ex(&b.left)?, self.ex(&b.right)?);
                if self.mode_p && lens(b) { return Ok(format!("len_add({}, {})", l, r)); }
                if let Some((t, m)) = op_name(&b.op) { return Ok(format!("{}::{}({}, {})", t, m, l, r)); }
                match b.op {
                    BinOp::Eq(_) if self.veq => format!("({}).veq(&({}))", l, r),
                    BinOp::Ne(_) if self.veq => format!("!({}).veq(&({}))", l, r),
                    BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => format!("({} {} {})", l, toks(&b.op), r),
                    BinOp::AddAssign(_) => format!("{} = OpAdd::op_add({}, {})", l, l, r),
                    BinOp::SubAssign(_) => format!("{} = OpSub::op_sub({}, {})", l, l, r),
                    BinOp::MulAssign(_) => format!("{} = OpMul::op_mul({}, {})", l, l, r),
                    BinOp::DivAssign(_) => format!("{} = OpDiv::op_div({}, {})", l, l, r),
                    _ => return err(format!("operator {}", toks(&b.op))),
                }
            }
            Expr::Assign(a) => format!("{} = {}", self.ex(&a.left)?, self.ex(&a.right)?),
            Expr::Cast(c) => { let t = self.type_(&c.ty)?; match t.as_str() { "F64" => format!("AsF64::as_f64({})", self.ex(&c.expr)?), t => format!("AsInt::as_{}({})", t, self.ex(&c.expr)?) } }
            Expr::Tuple(t) => format!("({}{})", t.elems.iter().map(|x| self.ex(x)).collect::<std::result::Result<Vec<_>, _>>()?.join(", "), if t.elems.len() == 1 { "," } else { "" }),
            Expr::Struct(s) => { if s.rest.is_some() { return err("struct update"); } format!("{} {{ {} }}", self.path(&s.path), s.fields.iter().map(|f| Ok(format!("{}: {}", toks(&f.member), self.ex(&f.expr)?))).collect::<std::result::Result<Vec<_>, String>>()?.join(", ")) }
            Expr::Macro(m) => self.ex_macro(&m.mac)?,
            Expr::Return(r) => match &r.expr { Some(x) => format!("return {}", self.ex(x)?), None => "return".into() },
            Expr::Break(b) => { if b.label.is_some() || b.expr.is_some() { return err("labelled break"); } "break".into() }
            Expr::Continue(b) => { if b.label.is_some() { return err("labelled continue"); } "continue".into() }
            Expr::Block(b) => { if b.label.is_some() { return err("label"); } let mut o = String::new(); self.ex_block(&b.block, &mut o)?; o }
            Expr::If(i) => {
                let mut o;
                if let Expr::Let(l) = &*i.cond {
                    let t = self.ty(&l.expr);
                    o = format!("if let {} = {} ", self.pat(&l.pat)?, self.ex(&l.expr)?);
                    self.push();
                    self.bind_pat(&l.pat, &t);
                } else { if toks(&i.cond).contains("let ") && matches!(&*i.cond, Expr::Binary(_)) { return err("let chain"); } o = format!("if {} ", self.ex(&i.cond)?); self.push(); }
                let r = self.ex_block(&i.then_branch, &mut o);
                self.pop();
                r?;
                if let Some((_, e)) = &i.else_branch { o = format!("{} else {}", o.trim_end(), match &**e { Expr::Block(_) | Expr::If(_) => self.ex(e)?, x => format!("{{ {} }}", self.ex(x)?) }); }
                o
            }
            Expr::Match(m) => {
                let t = self.ty(&m.expr);
                let mut o = format!("match {} {{\n", self.ex(&m.expr)?);
                for a in &m.arms {
                    self.push();
                    self.bind_pat(&a.pat, &t);
                    let g = match &a.guard { Some((_, g)) => format!(" if {}", self.ex(g)?), None => String::new() };
                    let b = self.ex(&a.body);
                    let p = self.pat(&a.pat);
                    self.pop();
                    o.push_str(&format!("{}{} => {},\n", p?, g, b?));
                }
                o.push_str("}\n");
                o
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return err("call of an expression") };
                if let Callee::Other(s) = self.callee(&c.func) { if self.fn_params.contains(&s) { return Ok(format!("{}({})", s, self.args(&c.args, None)?.join(", "))); } }
                format!("{}({})", self.path(&p.path), self.args(&c.args, None)?.join(", "))
            }
            Expr::MethodCall(m) if self.text && m.method == "write_str" && matches!(m.args.first(), Some(Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) => {
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(l), .. })) = m.args.first() else { unreachable!() };
                let f = self.ex(&m.receiver)?;
                let v: Vec<String> = l.value().chars().map(|c| format!("FState::write_char({}, {:?})", f, c)).collect();
                if v.is_empty() { format!("FState::nothing({})", f) } else { format!("({{ {} }})", v.join("; ")) }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let user = matches!(self.method_fn(m), Some(Ok(_)));
                let v = if user { n.clone() } else { method_name(&n) };
                let mut a = self.args(&m.args, Some(m))?;
                if n == "expect" { a.clear(); }
                let turbo = m.turbofish.as_ref().map(|t| format!("::<{}>", t.args.iter().map(|x| match x { GenericArgument::Type(t) => self.type_(t).unwrap_or("_".into()), x => toks(x) }).collect::<Vec<_>>().join(", "))).unwrap_or_default();
                format!("{}.{}{}({})", self.ex(&m.receiver)?, v, turbo, a.join(", "))
            }
            Expr::While(w) => {
                if w.label.is_some() { return err("label"); }
                if let Expr::Let(l) = &*w.cond {
                    *self.cond.borrow_mut() = toks(&l.expr);
                    let (pre, inv) = { let mut all = w.body.clone(); all.stmts.insert(0, Stmt::Expr((*l.expr).clone(), Some(Default::default()))); self.annotate(&all, None, &Ty::Unk)? };
                    let t = self.ty(&l.expr);
                    let mut o = format!("{}loop\n{}{{\nmatch {} {{ {} => ", pre, inv, self.ex(&l.expr)?, self.pat(&l.pat)?);
                    self.push();
                    self.bind_pat(&l.pat, &t);
                    let r = self.ex_block(&w.body, &mut o);
                    self.pop();
                    r?;
                    o.push_str(", _ => { break; } }\n}\n");
                    o
                } else {
                    let c = self.ex(&w.cond)?;
                    *self.cond.borrow_mut() = toks(&w.cond);
                    let (pre, inv) = self.annotate(&w.body, None, &Ty::Unk)?;
                    let mut o = format!("{}while {}\n{}", pre, c, inv);
                    self.ex_block(&w.body, &mut o)?;
                    o
                }
            }
            Expr::Loop(w) => { if w.label.is_some() { return err("label"); } let (pre, inv) = self.annotate(&w.body, None, &Ty::Unk)?; let mut o = format!("{}loop\n{}", pre, inv); self.ex_block(&w.body, &mut o)?; o }
            Expr::ForLoop(f) => self.ex_for(f)?,
            Expr::Closure(_) => return err("closure outside a call"),
            _ => return err(format!("expression {}", toks(e).chars().take(60).collect::<String>())),
        })
    }
    fn ex_for(&self, f: &ExprForLoop) -> Res {
        if f.label.is_some() { return err("label"); }
        let it = self.fresh("it");
        let mut o = String::from("{\n");
        if let Expr::Range(r) = strip(&f.expr) {
            let (a, b) = (r.start.as_ref().ok_or("range")?, r.end.as_ref().ok_or("range")?);
            let end = self.fresh("end");
            let RangeLimits::HalfOpen(_) = r.limits else { return err("closed range") };
            o.push_str(&format!("let {}_start = {};\nlet mut {} = {}_start;\nlet {} = {};\n", it, self.ex(a)?, it, it, end, self.ex(b)?));
            let (pre, inv) = self.annotate(&f.body, Some((&it, Some(&end))), &Ty::n("int"))?;
            o.push_str(&format!("{}while {} < {}\n{}{{\nlet {} = {}; {} = {} + 1;\n", pre, it, end, inv, match &*f.pat { Pat::Wild(_) => self.fresh("w"), p => self.pat(p)? }, it, it, it));
            self.push();
            self.bind_pat(&f.pat, &Ty::n("int"));
        } else {
            let src = match strip(&f.expr) { e @ Expr::Reference(r) if r.mutability.is_none() => { let _ = e; format!("{}.vit()", self.ex(&r.expr)?) } e => format!("{}.for_it()", self.ex(e)?) };
            o.push_str(&format!("let mut {} = {};\n", it, src));
            let t = self.ty(&f.expr);
            let el = if let Ty::N(n, a) = &t { if n == "HashMap" { Ty::Tup(a.clone()) } else { a.first().cloned().unwrap_or(Ty::Unk) } } else { Ty::Unk };
            let (pre, inv) = self.annotate(&f.body, Some((&it, None)), &el)?;
            let (p, proj) = match &*f.pat {
                Pat::Tuple(t) => { let q = self.fresh("p"); let mut s = String::new(); for (j, x) in t.elems.iter().enumerate() { match x { Pat::Ident(y) => s.push_str(&format!("let {} = &{}.{}; ", y.ident, q, j)), Pat::Wild(_) => {}, _ => return err("loop pattern") } } (q, s) }
                p => (self.pat(p)?, String::new()),
            };
            o.push_str(&format!("{}while {}.has_next()\n{}{{\nlet {} = {}.take_next(); {}\n", pre, it, inv, p, it, proj));
            self.push();
            self.bind_pat(&f.pat, &el);
        }
        for s in &f.body.stmts { let r = self.ex_stmt(s, &mut o); if r.is_err() { self.pop(); return Err(r.unwrap_err()); } }
        self.pop();
        o.push_str("}\n}\n");
        Ok(o)
    }
    /// ghost code before a loop, and its invariant lines. Invariants made from templates are candidates:
    /// the driver drops those the verifier does not accept, and what remains is used.
    fn annotate(&self, body: &Block, it: Option<(&str, Option<&str>)>, el: &Ty) -> std::result::Result<(String, String), String> {
        let n = self.loops.get();
        self.loops.set(n + 1);
        let known: Vec<(String, Ty)> = { let sc = self.sc.borrow(); let mut v: BTreeMap<String, Ty> = BTreeMap::new(); for s in sc.iter() { for (k, t) in s { v.insert(k.clone(), t.clone()); } } v.into_iter().collect() };
        let tyof = |x: &str| known.iter().find(|k| k.0 == x).map(|k| k.1.clone()).unwrap_or(Ty::Unk);
        let muts: Vec<String> = mutated(body).into_iter().filter(|m| known.iter().any(|k| k.0 == *m)).collect();
        let itn = it.map(|x| x.0.to_string()).unwrap_or_default();
        let range = it.map_or(false, |x| x.1.is_some());
        // the parts a combination ranges over
        let parts: Vec<String> = muts.iter().filter(|m| self.valty.contains(&tyof(m).show())).cloned().collect();
        let exprs: Vec<String> = known.iter().filter(|k| !muts.contains(&k.0)).flat_map(|k| match k.1.show().as_str() { "Expression" => vec![k.0.clone()], "AssociativeOperation" => vec![format!("{}.argument__s()", k.0)], _ => vec![] }).collect();
        let own = self.tmpl.get(&n);
        let hard = own.is_some();
        if own.is_none() && self.dflt.is_empty() { self.bare_loops.set(self.bare_loops.get() + 1); }
        let mut pre = String::new();
        let mut inv: Vec<(bool, String)> = vec![];
        let mut dec = String::new();
        let mut outs: Vec<String> = vec![];
        let subst = |s: &str, m: Option<&str>| -> String {
            let mut s = s.to_string();
            for (i, p) in self.params.iter().enumerate().rev() { s = s.replace(&format!("${}", i), p); }
            s = s.replace("$it", &itn).replace("$end", it.and_then(|x| x.1).unwrap_or(""));
            for (i, p) in muts.iter().enumerate().rev() { s = s.replace(&format!("$m{}", i), p); }
            if let Some(m) = m { s = s.replace("$v", m); }
            s.replace("$n", &n.to_string())
        };
        let mut u = 0;
        for (k, text) in own.into_iter().flatten().chain(self.dflt.iter()) {
            let w: Vec<&str> = text.split_whitespace().collect();
            u += 1;
            match k.as_str() {
                "vars" => { let want: usize = text.trim().parse().unwrap_or(0); if muts.len() != want { return err(format!("loop {} changes {:?}: {} variables, the annotation is for {}", n, muts, muts.len(), want)); } }
                "pre" => pre.push_str(&format!("{}\n", subst(text, None))),
                "inv" => inv.push((false, subst(text, None))),
                "cand" if it.is_none() && text.contains("$it") => {}
                "cand" => inv.push((true, subst(text, None))),
                "each" => for m in &parts { inv.push((true, subst(text, Some(m)))) },
                // a combination of the changed variables stays what it was before the loop: OP UNIT FUNCTION
                "conserve" => {
                    let (eq, op, f) = (if w[0].starts_with('~') { "=~=" } else { "==" }, w[0].trim_start_matches('~'), w[2]);
                    let cond = text.split_once('|').map_or(String::new(), |x| format!("({}) ==> ", subst(x.1, None)));
                    let mut v: Vec<String> = parts.iter().map(|m| format!("{}({})", f, m)).collect();
                    if it.is_some() && !range { if !self.itemty.contains(&el.show()) { continue; } v.push(format!("{}({})", f, itn)); }
                    if v.is_empty() { continue; }
                    let c = fold_op(op, &v);
                    let g = format!("tot__{}_{}", n, u);
                    pre.push_str(&format!("let ghost {} = ({});\n", g, c));
                    inv.push((true, format!("{}(({}) {} {})", cond, c, eq, g)));
                }
                // the product of the changed variables stays what it was: by its zeros, its size and its sign
                "product" => {
                    let f = w[0];
                    let mut v: Vec<String> = parts.iter().map(|m| format!("{}({})", f, m)).collect();
                    if it.is_some() && !range { if !self.itemty.contains(&el.show()) { continue; } v.push(format!("{}({})", f, itn)); }
                    if v.is_empty() { continue; }
                    let z = format!("({})", v.iter().map(|x| format!("{} == 0real", x)).collect::<Vec<_>>().join(" || "));
                    let l = fold_op("+", &v.iter().map(|x| format!("lg({})", x)).collect::<Vec<_>>());
                    let x = fold_op("bxor", &v.iter().map(|x| format!("({} < 0real)", x)).collect::<Vec<_>>());
                    let g = format!("tot__{}_{}", n, u);
                    pre.push_str(&format!("let ghost {}z = {};\nlet ghost {}l = {};\nlet ghost {}s = {};\n", g, z, g, l, g, x));
                    inv.push((true, format!("{} == {}z", z, g)));
                    inv.push((true, format!("{}z || {} == {}l", g, l, g)));
                    inv.push((true, format!("{}z || {} == {}s", g, x, g)));
                }
                // a combination of the changed variables does not grow: OP FUNCTION
                "atmost" => {
                    let (op, f) = (w[0], w[1]);
                    let mut v: Vec<String> = parts.iter().map(|m| format!("{}({})", f, m)).collect();
                    if it.is_some() && !range { if !self.itemty.contains(&el.show()) { continue; } v.push(format!("{}({})", f, itn)); }
                    if v.is_empty() { continue; }
                    let c = fold_op(op, &v);
                    let g = format!("top__{}_{}", n, u);
                    pre.push_str(&format!("let ghost {} = ({});\n", g, c));
                    inv.push((true, format!("({}) <= {}", c, g)));
                }
                // the same, where what is left to visit counts times the value of an expression in scope: OP FUNCTION WEIGHT MUL
                "scaled" => if it.is_some() && !range && !parts.is_empty() && self.itemty.contains(&el.show()) {
                    for (xi, x) in exprs.iter().enumerate() {
                        let last = fold_op(w[3], &[format!("{}({})", w[1], itn), format!("{}({})", w[2], x)]);
                        let c = fold_op(w[0], &parts.iter().map(|m| format!("{}({})", w[1], m)).chain(Some(last)).collect::<Vec<_>>());
                        let g = format!("tot__{}_{}_{}", n, u, xi);
                        pre.push_str(&format!("let ghost {} = ({});\n", g, c));
                        inv.push((true, format!("({}) == {}", c, g)));
                    }
                },
                // FUNCTION UNIT POWER WEIGHT: in a counting loop, FUNCTION(variable) is POWER(WEIGHT(x), counter)
                // FUNCTION | CONCLUSION: if it holds of all the changed variables (and of what is left to visit), the conclusion holds
                "implies" => {
                    let (f, c) = text.split_once('|').unwrap_or((text, "true"));
                    let f = f.trim();
                    let mut v: Vec<String> = parts.iter().map(|m| format!("{}({})", f, m)).collect();
                    if it.is_some() && !range { if !self.itemty.contains(&el.show()) { continue; } v.push(format!("{}({})", f, itn)); }
                    if v.is_empty() { continue; }
                    inv.push((true, format!("({}) ==> ({})", v.join(" && "), subst(c, None))));
                }
                "counted" => if range { for x in &exprs { for m in &parts { inv.push((true, format!("{}({}) == {}({}({}), {} as int)", w[0], m, w[1], w[2], x, itn))); } } },
                // a predicate that held of the changed variables (and of what is left to visit) keeps holding
                "keep" => {
                    let f = text.trim();
                    let mut v: Vec<String> = parts.iter().map(|m| format!("{}({})", f, m)).collect();
                    if it.is_some() && !range { if !self.itemty.contains(&el.show()) { continue; } v.push(format!("{}({})", f, itn)); }
                    if v.is_empty() { continue; }
                    let c = v.join(" && ");
                    let g = format!("kept__{}_{}", n, u);
                    pre.push_str(&format!("let ghost {} = {};\n", g, c));
                    inv.push((true, format!("({} ==> ({}))", g, c)));
                }
                // a predicate holds of each changed variable at every turn, or: WEIGHT of it did not change
                // what holds when the loop is left
                "out" => outs.push(subst(text, None)),
                "dec" => dec = format!("    decreases {}\n", subst(text, None)),
                _ => return err(format!("annotation {}", k)),
            }
        }
        let _ = hard;
        let cond = std::mem::take(&mut *self.cond.borrow_mut());
        if self.term && dec.is_empty() {
            dec = match it {
                Some((i, Some(e))) => format!("    decreases {} - {}\n", e, i),
                Some((i, None)) => format!("    decreases {}.g@.len()\n", i),
                // the lists the condition asks about get shorter, or what is left in them smaller
                None => { let m: Vec<String> = parts.iter().filter(|p| cond.split(|x: char| !x.is_alphanumeric() && x != '_').any(|w| w == p.as_str())).map(|p| format!("SzV::dz({})", p)).collect(); if m.is_empty() { String::new() } else { format!("    decreases {}\n", m.join(" + ")) } }
            };
        }
        let mut s = String::new();
        let mut any = false;
        for (i, (c, t)) in inv.iter().enumerate() {
            let id = format!("{}@{}@{}", self.fkey, n, i);
            if *c { if self.dropc.contains(&id) { continue; } self.cands.set(self.cands.get() + 1); }
            if !any { s.push_str("  invariant\n"); any = true; }
            if *c { s.push_str(&format!("    {}, /*cand:{}*/\n", t, id)); } else { s.push_str(&format!("    {}, /*inv:{}*/\n", t, n)); }
        }
        if !outs.is_empty() { s.push_str("  ensures\n"); for o in &outs { s.push_str(&format!("    {}, /*inv:{}*/\n", o, n)); } }
        s.push_str(&dec);
        s.push_str("/*USE*/");
        Ok((pre, s))
    }

    // ------------------------------------------------------------------ safety of a closure body (no panic)
    fn safe_closure(&self, c: &ExprClosure) -> Res { match &*c.body { Expr::Block(b) => { self.push(); let r = self.safe_stmts(&b.block.stmts.iter().collect::<Vec<_>>()); self.pop(); r } e => self.safe_stmts(&[&Stmt::Expr(e.clone(), None)]) } }
    pub fn safe_stmts(&self, s: &[&Stmt]) -> Res {
        let Some((h, rest)) = s.split_first() else { return Ok("true".into()) };
        match h {
            Stmt::Local(l) => {
                let i = l.init.as_ref().ok_or("let")?;
                let a = self.safe(&i.expr)?;
                let v = self.sp(&i.expr);
                let p = self.pat(&l.pat)?;
                self.push();
                self.bind_local(l);
                let k = self.safe_stmts(rest);
                self.pop();
                let k = k?;
                if k == "true" { return Ok(a); }
                Ok(and(a, format!("{{ let {} = {}; {} }}", p, v?, k)))
            }
            Stmt::Expr(e, semi) => self.safe_flow(e, rest, semi.is_some()),
            Stmt::Macro(m) => if is_panic(&m.mac) { Ok("false".into()) } else { err("macro") },
            Stmt::Item(_) => self.safe_stmts(rest),
        }
    }
    fn safe_flow(&self, e: &Expr, rest: &[&Stmt], _semi: bool) -> Res {
        let with = |b: &Block| -> Res { self.push(); let mut v: Vec<&Stmt> = b.stmts.iter().collect(); if !has_return_all(b) { v.extend(rest.iter()); } let r = self.safe_stmts(&v); self.pop(); r };
        match e {
            Expr::Return(r) => match &r.expr { Some(x) => self.safe_stmts(&[&Stmt::Expr((**x).clone(), None)]), None => Ok("true".into()) },
            Expr::If(i) => {
                let els = match &i.else_branch { Some((_, e)) => match &**e { Expr::Block(b) => with(&b.block)?, e2 => self.safe_flow(e2, rest, false)? }, None => self.safe_stmts(rest)? };
                if let Expr::Let(l) = &*i.cond {
                    let t = self.ty(&l.expr);
                    let c = self.safe(&l.expr)?;
                    self.push();
                    self.bind_pat(&l.pat, &t);
                    let th = with(&i.then_branch);
                    self.pop();
                    let th = th?;
                    if th == "true" && els == "true" { return Ok(c); }
                    return Ok(and(c, format!("(match {} {{ {} => {}, _ => {} }})", self.sp(&l.expr)?, self.pat(&l.pat)?, th, els)));
                }
                let (c, th) = (self.safe(&i.cond)?, with(&i.then_branch)?);
                if th == "true" && els == "true" { return Ok(c); }
                Ok(and(c, format!("(if {} {{ {} }} else {{ {} }})", self.sp(&i.cond)?, th, els)))
            }
            Expr::Match(m) => {
                let t = self.ty(&m.expr);
                let mut arms = vec![];
                let mut all = true;
                for a in &m.arms {
                    self.push();
                    self.bind_pat(&a.pat, &t);
                    let g = match &a.guard { Some((_, g)) => self.sp(g).map(|g| format!(" if {}", g)), None => Ok(String::new()) };
                    let b = match &*a.body { Expr::Block(b) => with(&b.block), x => self.safe_flow(x, rest, false) };
                    self.pop();
                    let b = b?;
                    if b != "true" { all = false; }
                    arms.push(format!("{}{} => {}", self.pat(&a.pat)?, g?, b));
                }
                let c = self.safe(&m.expr)?;
                if all { return Ok(c); }
                if let Ok(v) = self.sp(&m.expr) { return Ok(and(c, format!("(match {} {{ {} }})", v, arms.join(", ")))); }
                let x = self.fresh("t");
                let f = self.post(&m.expr, &x)?;
                Ok(and(c, format!("(forall|{}| {} ==> (match {} {{ {} }}))", x, f, x, arms.join(", "))))
            }
            Expr::Block(b) => with(&b.block),
            Expr::Macro(m) if is_panic(&m.mac) => Ok("false".into()),
            e => { let a = self.safe(e)?; Ok(and(a, self.safe_stmts(rest)?)) }
        }
    }
    /// condition under which evaluating a plain expression does not panic
    fn safe(&self, e: &Expr) -> Res {
        let many = |v: Vec<&Expr>| -> Res { let mut o = "true".to_string(); for x in v { o = and(o, self.safe(x)?); } Ok(o) };
        Ok(match e {
            Expr::Lit(_) | Expr::Path(_) | Expr::Closure(_) => "true".into(),
            Expr::Paren(p) => self.safe(&p.expr)?,
            Expr::Reference(r) => self.safe(&r.expr)?,
            Expr::Field(f) => self.safe(&f.base)?,
            Expr::Unary(u) => self.safe(&u.expr)?,
            Expr::Cast(c) => self.safe(&c.expr)?,
            Expr::Binary(b) if lens(b) => many(vec![&b.left, &b.right])?,
            Expr::Binary(b) => { let a = many(vec![&b.left, &b.right])?; if let Some((t, m)) = op_name(&b.op) { let (lt, rt) = (self.ty(&b.left), self.ty(&b.right)); let _ = (&lt, &rt); if lt.mentions("Expression") && lt != Ty::Unk { return Ok(a); } return Ok(and(a, format!("{}::{}__req({}, {})", t, m, self.sp(&b.left)?, self.sp(&b.right)?))); } a }
            Expr::Call(c) => {
                let a = many(c.args.iter().collect())?;
                match self.callee(&c.func) { Callee::Fn(f) if self.reqs.contains(&f.key) => { let Expr::Path(p) = &*c.func else { return err("call") }; let mut v = vec![]; for x in &c.args { v.push(self.sp(x)?); } and(a, format!("{}__req({})", self.path(&p.path), v.join(", "))) } _ => a }
            }
            Expr::MethodCall(m) => { let mut v: Vec<&Expr> = vec![&m.receiver]; v.extend(m.args.iter()); let a = many(v)?; if let Some(Ok(f)) = self.method_fn(m) { if self.reqs.contains(&f.key) { let mut v = vec![]; for x in &m.args { v.push(self.sp(x)?); } return Ok(and(a, format!("{}.{}__req({})", self.sp(&m.receiver)?, m.method, v.join(", ")))); } } match m.method.to_string().as_str() { "unwrap" | "expect" => and(a, format!("{} is Some", self.sp(&m.receiver)?)), _ => a } }
            Expr::Tuple(t) => many(t.elems.iter().collect())?,
            Expr::Struct(s) => many(s.fields.iter().map(|f| &f.expr).collect())?,
            Expr::Macro(m) if is_panic(&m.mac) => "false".into(),
            Expr::Macro(m) if m.mac.path.is_ident("vec") => { let v = vec_args(&m.mac)?; let mut o = "true".to_string(); for x in &v { o = and(o, self.safe(x)?); } o }
            Expr::Macro(m) if m.mac.path.is_ident("matches") => self.safe(&matches_expr(&m.mac)?)?,
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => self.safe_flow(e, &[], false)?,
            _ => return err("safety condition"),
        })
    }
}
/// an operator, or a function of two arguments, over several
fn fold_op(op: &str, v: &[String]) -> String { if op.chars().all(|c| c.is_alphanumeric() || c == '_') { let mut s = v[0].clone(); for x in &v[1..] { s = format!("{}({}, {})", op, s, x); } s } else { format!("({})", v.join(&format!(" {} ", op))) } }
fn has_return_all(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) }
fn and(a: String, b: String) -> String { if a == "true" { b } else if b == "true" { a } else { format!("({} && {})", a, b) } }

fn ty_text(t: &Ty) -> Option<String> { Some(match t { Ty::Unk => return None, Ty::Tup(v) => format!("({})", v.iter().map(ty_text).collect::<Option<Vec<_>>>()?.join(", ")), Ty::N(n, a) => { let n = match n.as_str() { "f64" => "F64", "String" | "str" => "VStr", n => n }; if a.is_empty() { n.to_string() } else { format!("{}<{}>", n, a.iter().map(ty_text).collect::<Option<Vec<_>>>()?.join(", ")) } } }) }
pub enum Callee<'a> { Fn(&'a FnInfo), Variant(String, String), Other(String) }
pub fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), e => e } }
pub fn strip_ref(e: &Expr) -> &Expr { match e { Expr::Reference(r) if matches!(strip(&r.expr), Expr::Closure(_)) => strip(&r.expr), Expr::Paren(p) => strip_ref(&p.expr), e => e } }
fn is_num(t: &Ty) -> bool { matches!(t, Ty::N(s, a) if a.is_empty() && matches!(s.as_str(), "int" | "usize" | "isize" | "i64" | "u64" | "i32" | "u32" | "i16" | "u8" | "i8" | "u16")) }
fn chain_owned(e: &Expr) -> bool {
    match e { Expr::Paren(p) => chain_owned(&p.expr), Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "cloned" | "copied" | "into_iter" | "map") || (m.method != "iter" && chain_owned(&m.receiver)), _ => false }
}
/// the lengths of two listings, added
fn lens(b: &ExprBinary) -> bool { let l = |e: &Expr| matches!(strip(e), Expr::MethodCall(m) if m.method == "len" && m.args.is_empty()); matches!(b.op, BinOp::Add(_)) && l(&b.left) && l(&b.right) }
fn op_name(o: &BinOp) -> Option<(&'static str, &'static str)> {
    Some(match o { BinOp::Add(_) => ("OpAdd", "op_add"), BinOp::Sub(_) => ("OpSub", "op_sub"), BinOp::Mul(_) => ("OpMul", "op_mul"), BinOp::Div(_) => ("OpDiv", "op_div"), BinOp::Rem(_) => ("OpRem", "op_rem"), _ => return None })
}
fn real_lit(f: &LitFloat) -> Res {
    let s: String = f.base10_digits().to_string();
    if s.contains('e') || s.contains('E') { return err("float literal"); }
    let (a, b) = s.split_once('.').unwrap_or((&s, ""));
    let b = b.trim_end_matches('0');
    if b.is_empty() { return Ok(format!("{}real", a)); }
    Ok(format!("({}{}real / 1{}real)", a.trim_start_matches('0'), b, "0".repeat(b.len())))
}
pub fn is_panic(m: &Macro) -> bool { ["panic", "unreachable", "unimplemented", "todo"].iter().any(|n| m.path.is_ident(n)) }
fn vec_args(m: &Macro) -> std::result::Result<Vec<Expr>, String> { Ok(m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| format!("vec!: {}", e))?.into_iter().collect()) }
struct MatchesArgs(Expr, Pat, Option<Expr>);
impl parse::Parse for MatchesArgs {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let e: Expr = i.parse()?;
        i.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(i)?;
        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
        let _ = i.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(e, p, g))
    }
}
fn chars(s: &str) -> String { format!("Seq::<char>::empty(){}", s.chars().map(|c| format!(".push({:?})", c)).collect::<String>()) }
/// format!("{}", e)
fn format_one(m: &Macro) -> Option<Expr> {
    let v = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
    if v.len() != 2 { return None; }
    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &v[0] { if s.value() == "{}" { return Some(v[1].clone()); } }
    None
}
fn matches_expr(m: &Macro) -> std::result::Result<Expr, String> {
    let MatchesArgs(e, p, g) = m.parse_body::<MatchesArgs>().map_err(|e| e.to_string())?;
    let g = g.map(|g| quote::quote!(if #g)).unwrap_or_default();
    parse2(quote::quote!(match #e { #p #g => true, _ => false })).map_err(|e| e.to_string())
}
fn spec_path(p: &str) -> String { if p.ends_with('>') { if let Some(i) = p.rfind("::<") { return format!("{}__s", &p[..i]); } } format!("{}__s", p) }
#[allow(dead_code)]
fn unused() -> usize { RENAMED_BACK.len() }

/// `exists t. f && b`, with the quantifiers of f pulled to the front
fn exq(t: &str, f: &str, b: &str) -> String {
    if let Some(x) = f.strip_prefix("(exists|") {
        let mut d = 1; let mut end = None;
        for (i, c) in f.char_indices().skip(1) { match c { '(' => d += 1, ')' => { d -= 1; if d == 0 { end = Some(i); break; } } _ => {} } }
        if end == Some(f.len() - 1) { if let Some((vars, body)) = x[..x.len() - 1].split_once('|') { return format!("(exists|{}, {}| {} && {})", vars, t, body, b); } }
    }
    format!("(exists|{}| {} && {})", t, f, b)
}
