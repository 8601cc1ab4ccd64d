//! Reading the crate under /repo/src: the modules that lib.rs activates, their types and functions.
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    N(String, Vec<Ty>),
    Tup(Vec<Ty>),
    Unk,
}
impl Ty {
    pub fn n(s: &str) -> Ty { Ty::N(s.into(), vec![]) }
    pub fn g(s: &str, a: Ty) -> Ty { Ty::N(s.into(), vec![a]) }
    pub fn show(&self) -> String {
        match self {
            Ty::N(s, a) if a.is_empty() => s.clone(),
            Ty::N(s, a) => format!("{}<{}>", s, a.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Tup(a) => format!("({})", a.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            Ty::Unk => "_".into(),
        }
    }
    pub fn mentions(&self, n: &str) -> bool {
        match self { Ty::N(s, a) => s == n || a.iter().any(|t| t.mentions(n)), Ty::Tup(a) => a.iter().any(|t| t.mentions(n)), Ty::Unk => true }
    }
}

/// references and boxes are transparent
pub fn ty_of(t: &Type, slf: &Ty) -> Ty {
    match t {
        Type::Reference(r) => ty_of(&r.elem, slf),
        Type::Paren(p) => ty_of(&p.elem, slf),
        Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|x| ty_of(x, slf)).collect()),
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if n == "Self" && p.path.segments.len() == 1 { return slf.clone(); }
            let args: Vec<Ty> = match &s.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(ty_of(t, slf)) } else { None }).collect(),
                _ => vec![],
            };
            match n.as_str() {
                "Box" => args.into_iter().next().unwrap_or(Ty::Unk),
                "String" | "str" => Ty::n("VStr"),
                "f64" => Ty::n("F64"),
                "Output" => slf.clone(),
                _ => Ty::N(n, args),
            }
        }
        _ => Ty::Unk,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind { Inherent, Free, Op(String), Trait(String) }

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub name: String,
    pub slf: Option<Ty>,
    pub slf_text: String,
    pub rhs: Option<Type>,
    pub out: Option<Type>,
    pub sig: Signature,
    pub block: Block,
    pub kind: Kind,
    pub file: String,
    pub params: Vec<(String, Ty, Option<Type>)>,
    pub ret: Ty,
    pub mut_params: bool,
    pub generics: String,
}

#[derive(Clone)]
pub enum TyDef { Struct(ItemStruct), Enum(ItemEnum) }

#[derive(Default)]
pub struct Krate {
    pub types: BTreeMap<String, TyDef>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub fns: Vec<FnInfo>,
    pub consts: Vec<ItemConst>,
    pub dropped: Vec<String>,
    pub errors: Vec<String>,
    /// traits declared by the crate
    pub traits: Vec<String>,
}

pub const OPS: [(&str, &str, &str); 6] = [("Add", "OpAdd", "op_add"), ("Sub", "OpSub", "op_sub"), ("Mul", "OpMul", "op_mul"), ("Div", "OpDiv", "op_div"), ("Rem", "OpRem", "op_rem"), ("Neg", "OpNeg", "op_neg")];

pub fn type_text(t: &Type) -> String { t.to_token_stream().to_string().replace(' ', "") }

fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test") || a.path().is_ident("test")) }

pub fn load(src: &Path) -> Krate {
    let mut k = Krate::default();
    let lib = src.join("lib.rs");
    file(&mut k, &lib, src, src);
    derived(&mut k);
    // a trait of the crate is only a name for a set of functions: its implementations become inherent
    for f in &mut k.fns { if let Kind::Trait(t) = &f.kind { if k.traits.contains(t) { f.key = format!("{}::{}", f.slf_text, f.name); f.kind = Kind::Inherent; } } }
    // functions of the same key in two modules would clash
    let mut seen = BTreeMap::new();
    for f in &k.fns { *seen.entry(f.key.clone()).or_insert(0) += 1; }
    for (n, c) in seen { if c > 1 { k.errors.push(format!("{} is defined {} times", n, c)); } }
    k
}
fn file(k: &mut Krate, path: &Path, dir: &Path, root: &Path) {
    let text = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { k.errors.push(format!("{}: {}", path.display(), e)); return; } };
    // the name `r` is kept for results in contracts: source variables of that name get another
    let renamed = text.parse::<proc_macro2::TokenStream>().map(rename_r);
    let parsed = match renamed { Ok(t) => parse2::<File>(t), Err(_) => parse_file(&text) };
    let mut ast = match parsed { Ok(a) => a, Err(e) => { k.errors.push(format!("{}: {}", path.display(), e)); return; } };
    let rel = path.strip_prefix(root).unwrap().display().to_string();
    visit_mut::VisitMut::visit_file_mut(&mut crate::dead::Dead, &mut ast);
    visit_mut::VisitMut::visit_file_mut(&mut Prep, &mut ast);
    items(k, &ast.items, dir, root, &rel);
}
fn items(k: &mut Krate, its: &[Item], dir: &Path, root: &Path, rel: &str) {
    for it in its {
        match it {
            Item::Use(_) => {}
            Item::Mod(m) => {
                if is_test(&m.attrs) { k.dropped.push(format!("{}: test module", rel)); continue; }
                let n = m.ident.to_string();
                match &m.content {
                    Some((_, its)) => items(k, its, &dir.join(&n), root, rel),
                    None => {
                        if n.ends_with("_test") { k.dropped.push(format!("{}: test module {}", rel, n)); continue; }
                        let a: PathBuf = dir.join(format!("{}.rs", n));
                        if a.exists() { file(k, &a, &dir.join(&n), root) } else { let b = dir.join(&n).join("mod.rs"); file(k, &b, &dir.join(&n), root) }
                    }
                }
            }
            Item::Struct(s) => { let n = s.ident.to_string(); k.derives.insert(n.clone(), derives(&s.attrs)); if k.types.insert(n.clone(), TyDef::Struct(s.clone())).is_some() { k.errors.push(format!("type {} is defined twice", n)); } }
            Item::Enum(s) => { let n = s.ident.to_string(); k.derives.insert(n.clone(), derives(&s.attrs)); if k.types.insert(n.clone(), TyDef::Enum(s.clone())).is_some() { k.errors.push(format!("type {} is defined twice", n)); } }
            Item::Const(c) => k.consts.push(c.clone()),
            Item::Trait(t) => k.traits.push(t.ident.to_string()),
            Item::Fn(f) => { if is_test(&f.attrs) { continue; } func(k, &f.sig, &f.block, Kind::Free, None, "", None, None, rel, "") }
            Item::Impl(im) => {
                if is_test(&im.attrs) { continue; }
                let slf = ty_of(&im.self_ty, &Ty::Unk);
                let st = type_text(&im.self_ty);
                let gen = im.generics.to_token_stream().to_string();
                let (kind, rhs) = match &im.trait_ {
                    None => (Kind::Inherent, None),
                    Some((_, p, _)) => {
                        let s = p.segments.last().unwrap();
                        let n = s.ident.to_string();
                        let rhs = match &s.arguments { PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }), _ => None };
                        if OPS.iter().any(|o| o.0 == n) { (Kind::Op(n), Some(rhs.unwrap_or((*im.self_ty).clone()))) }
                        else { (Kind::Trait(n), None) }
                    }
                };
                let out = im.items.iter().find_map(|x| if let ImplItem::Type(t) = x { Some(t.ty.clone()) } else { None });
                for x in &im.items { if let ImplItem::Fn(f) = x { func(k, &f.sig, &f.block, kind.clone(), Some(slf.clone()), &st, rhs.clone(), out.clone(), rel, &gen) } }
                if let ImplItem::Const(_) = im.items.first().unwrap_or(&ImplItem::Verbatim(Default::default())) { k.errors.push(format!("{}: associated constant", rel)); }
            }
            Item::Macro(m) => k.errors.push(format!("{}: macro {}", rel, m.mac.path.to_token_stream())),
            Item::Type(_) | Item::Static(_) | _ => k.errors.push(format!("{}: unsupported item {}", rel, it.to_token_stream().to_string().chars().take(60).collect::<String>())),
        }
    }
}
fn derives(a: &[Attribute]) -> Vec<String> {
    let mut r = vec![];
    for x in a { if x.path().is_ident("derive") { let _ = x.parse_nested_meta(|m| { r.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) }); } }
    r
}
#[allow(clippy::too_many_arguments)]
fn func(k: &mut Krate, sig: &Signature, block: &Block, kind: Kind, slf: Option<Ty>, st: &str, rhs: Option<Type>, out: Option<Type>, rel: &str, gen: &str) {
    let name = sig.ident.to_string();
    // functions nested in functions become functions of their own
    let mut block = block.clone();
    let mut h = Hoist(vec![]);
    visit_mut::VisitMut::visit_block_mut(&mut h, &mut block);
    for f in h.0 { func(k, &f.sig, &f.block, Kind::Free, None, "", None, None, rel, ""); }
    let t = slf.clone().unwrap_or(Ty::Unk);
    let mut params = vec![];
    let mut mut_params = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(r) => { if r.reference.is_some() && r.mutability.is_some() { mut_params = true; } params.push(("self".to_string(), t.clone(), None)) }
            FnArg::Typed(p) => {
                if let Type::Reference(r) = &*p.ty { if r.mutability.is_some() { mut_params = true; } }
                let n = match &*p.pat { Pat::Ident(i) => i.ident.to_string(), _ => "_p".into() };
                params.push((n, ty_of(&p.ty, &t), Some((*p.ty).clone())))
            }
        }
    }
    let ret = match &sig.output { ReturnType::Default => Ty::Tup(vec![]), ReturnType::Type(_, t2) => { if type_text(t2) == "Self::Output" { out.as_ref().map(|o| ty_of(o, &t)).unwrap_or(Ty::Unk) } else { ty_of(t2, &t) } } };
    let mut sig = sig.clone();
    for g in sig.generics.type_params() { if g.bounds.iter().any(|b| toks(b).contains("Hasher")) { let n = g.ident.to_string(); let mut r = Ren(n); let mut ins = sig.inputs.clone(); for i in ins.iter_mut() { visit_mut::VisitMut::visit_fn_arg_mut(&mut r, i); } sig.inputs = ins; break; } }
    let sig = &sig;
    let key = match &kind {
        Kind::Free => name.clone(),
        Kind::Inherent => format!("{}::{}", st, name),
        Kind::Op(o) => format!("{}<{}> for {}", o, rhs.as_ref().map(type_text).unwrap_or_default(), st),
        Kind::Trait(o) => format!("{} for {}::{}", o, st, name),
    };
    k.fns.push(FnInfo { key, name, slf, slf_text: st.to_string(), rhs, out, sig: sig.clone(), block, kind, file: rel.to_string(), params, ret, mut_params, generics: gen.to_string() });
}
impl Krate {
    pub fn inherent(&self, slf: &Ty, name: &str) -> Option<&FnInfo> { self.fns.iter().find(|f| f.name == name && matches!(f.kind, Kind::Inherent) && f.slf.as_ref() == Some(slf)) }
    pub fn named(&self, name: &str) -> Vec<&FnInfo> { self.fns.iter().filter(|f| f.name == name && matches!(f.kind, Kind::Inherent)).collect() }
    pub fn free(&self, name: &str) -> Option<&FnInfo> { self.fns.iter().find(|f| f.name == name && matches!(f.kind, Kind::Free)) }
    pub fn field(&self, t: &Ty, f: &str) -> Ty {
        let Ty::N(n, args) = t else { return Ty::Unk };
        let Some(TyDef::Struct(s)) = self.types.get(n) else { return Ty::Unk };
        for x in &s.fields { if x.ident.as_ref().map_or(false, |i| i == f) { let ft = ty_of(&x.ty, t); let gp = s.generics.type_params().next().map(|p| p.ident.to_string()); if let (Ty::N(a, _), Some(g)) = (&ft, gp) { if *a == g { return args.first().cloned().unwrap_or(Ty::Unk); } } return ft; } }
        Ty::Unk
    }
    pub fn variant(&self, en: &str, v: &str) -> Option<Vec<Ty>> {
        let Some(TyDef::Enum(e)) = self.types.get(en) else { return None };
        e.variants.iter().find(|x| x.ident == v).map(|x| x.fields.iter().map(|f| ty_of(&f.ty, &Ty::n(en))).collect())
    }
}

/// Rewriting done before translation: names the dialect reserves are changed, and `.fold(a, |x, y| b)` and
/// `.for_each(|y| b)` are written as the loops they stand for.
struct Prep;
const RESERVED: &[&str] = &["real", "int", "nat", "old", "choose", "forall", "exists", "proof", "ghost", "spec", "exec", "tracked", "assert", "assume", "ensures", "requires", "invariant", "decreases", "via", "by", "implies", "is", "has", "matches", "closed", "open", "broadcast", "group", "seq", "map", "set", "final", "same__"];
impl visit_mut::VisitMut for Prep {
    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if n.last().map_or(false, |x| x == "Formatter") { *p = parse_str("FState").unwrap(); return; }
        if n.len() >= 2 && n[n.len() - 2] == "fmt" && n[n.len() - 1] == "Result" { *p = parse_str("FRes").unwrap(); return; }
        visit_mut::visit_type_path_mut(self, p);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if RESERVED.contains(&p.ident.to_string().as_str()) { p.ident = Ident::new(&format!("{}_", p.ident), p.ident.span()); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 { let s = &mut p.path.segments[0]; if RESERVED.contains(&s.ident.to_string().as_str()) { s.ident = Ident::new(&format!("{}_", s.ident), s.ident.span()); } } visit_mut::visit_expr_path_mut(self, p); }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_value_mut(self, f); }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) { if f.colon_token.is_none() { f.colon_token = Some(Default::default()); } visit_mut::visit_field_pat_mut(self, f); }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") || m.path.is_ident("assert") {
            if let Ok(mut v) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) { for x in v.iter_mut() { self.visit_expr_mut(x); } m.tokens = v.to_token_stream(); }
        } else { m.tokens = rename_tokens(m.tokens.clone()); }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            let clo = m.args.last().and_then(|a| if let Expr::Closure(c) = a { Some(c.clone()) } else { None });
            if let Some(c) = clo {
                if crate::tr::has_return(&*c.body) { return; }
                let body = &c.body;
                let recv = &m.receiver;
                if n == "fold" && m.args.len() == 2 && c.inputs.len() == 2 {
                    let (init, a, x) = (&m.args[0], &c.inputs[0], &c.inputs[1]);
                    let Pat::Ident(a) = a else { return };
                    let id = &a.ident;
                    if let Ok(n) = parse2::<Expr>(quote::quote!({ let mut #id = #init; for #x in #recv { #id = #body; } #id })) { *e = n; }
                } else if n == "for_each" && c.inputs.len() == 1 {
                    let x = &c.inputs[0];
                    if let Ok(n) = parse2::<Expr>(quote::quote!({ for #x in #recv { #body; } })) { *e = n; }
                } else {
                    // orders and options, spelled out
                    let p = c.inputs.first();
                    let d = m.args.first();
                    let q = match (n.as_str(), m.args.len(), c.inputs.len()) {
                        ("then_with", 1, 0) => Some(quote::quote!(match #recv { Ordering::Equal => #body, o__ => o__ })),
                        ("then", 1, 0) => Some(quote::quote!(if #recv { Some(#body) } else { None })),
                        ("unwrap_or_else", 1, 0) => Some(quote::quote!(match #recv { Some(o__) => o__, None => #body })),
                        ("or_else", 1, 0) => Some(quote::quote!(match #recv { Some(o__) => Some(o__), None => #body })),
                        ("and_then", 1, 1) => Some(quote::quote!(match #recv { Some(#p) => #body, None => None })),
                        ("is_some_and", 1, 1) => Some(quote::quote!(match #recv { Some(#p) => #body, None => false })),
                        ("is_none_or", 1, 1) => Some(quote::quote!(match #recv { Some(#p) => #body, None => true })),
                        ("map_or", 2, 1) => Some(quote::quote!(match #recv { Some(#p) => #body, None => #d })),
                        _ => None,
                    };
                    if let Some(n) = q.and_then(|q| parse2::<Expr>(q).ok()) { *e = n; }
                }
                return;
            }
            let recv = &m.receiver;
            let d = m.args.first();
            let q = match (n.as_str(), m.args.len()) {
                ("then", 1) => Some(quote::quote!(match #recv { Ordering::Equal => #d, o__ => o__ })),
                ("then_some", 1) => Some(quote::quote!(if #recv { Some(#d) } else { None })),
                ("unwrap_or", 1) => Some(quote::quote!(match #recv { Some(o__) => o__, None => #d })),
                ("is_eq", 0) => Some(quote::quote!(match #recv { Ordering::Equal => true, _ => false })),
                ("is_ne", 0) => Some(quote::quote!(match #recv { Ordering::Equal => false, _ => true })),
                ("is_lt", 0) => Some(quote::quote!(match #recv { Ordering::Less => true, _ => false })),
                ("is_gt", 0) => Some(quote::quote!(match #recv { Ordering::Greater => true, _ => false })),
                ("is_le", 0) => Some(quote::quote!(match #recv { Ordering::Greater => false, _ => true })),
                ("is_ge", 0) => Some(quote::quote!(match #recv { Ordering::Less => false, _ => true })),
                _ => None,
            };
            if let Some(n) = q.and_then(|q| parse2::<Expr>(q).ok()) { *e = n; }
        }
    }
}

fn rename_tokens(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = t.into_iter().collect();
    let punct = |i: Option<usize>, c: char| i.and_then(|i| v.get(i)).map_or(false, |x| matches!(x, T::Punct(p) if p.as_char() == c));
    (0..v.len()).map(|i| match &v[i] {
        T::Ident(d) if RESERVED.contains(&d.to_string().as_str()) && !punct(i.checked_sub(1), '.') && !punct(i.checked_sub(1), ':') && !punct(Some(i + 1), ':') && !matches!(v.get(i + 1), Some(T::Group(_))) => T::Ident(proc_macro2::Ident::new(&format!("{}_", d), d.span())),
        T::Group(g) => T::Group(proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream()))),
        x => x.clone(),
    }).collect()
}

struct Ren(String);
impl visit_mut::VisitMut for Ren { fn visit_type_path_mut(&mut self, p: &mut TypePath) { if p.path.is_ident(&self.0) { *p = parse_str("HState").unwrap(); } visit_mut::visit_type_path_mut(self, p); } }
fn toks(x: impl ToTokens) -> String { x.to_token_stream().to_string() }

/// what #[derive(Hash)] and #[derive(PartialEq)] write
fn derived(k: &mut Krate) {
    let mut made = vec![];
    for (n, t) in &k.types {
        for d in &k.derives[n] {
            let gp: Vec<String> = match t { TyDef::Struct(s) => s.generics.type_params().map(|p| p.ident.to_string()).collect(), TyDef::Enum(s) => s.generics.type_params().map(|p| p.ident.to_string()).collect() };
            if !gp.is_empty() { continue; }
            let text = match (d.as_str(), t) {
                ("Hash", TyDef::Enum(e)) => format!("impl Hash for {n} {{ fn hash<H: Hasher>(&self, state: &mut H) {{ state.disc(self); match self {{ {} }} }} }}", e.variants.iter().map(|v| { let fs: Vec<String> = (0..v.fields.len()).map(|i| format!("f{i}")).collect(); format!("{n}::{}{} => {{ {} }}", v.ident, if fs.is_empty() { String::new() } else { format!("({})", fs.join(", ")) }, fs.iter().map(|f| format!("{f}.hash(state);")).collect::<String>()) }).collect::<Vec<_>>().join(", ")),
                ("Hash", TyDef::Struct(s)) => format!("impl Hash for {n} {{ fn hash<H: Hasher>(&self, state: &mut H) {{ {} }} }}", s.fields.iter().filter_map(|f| f.ident.as_ref()).map(|f| format!("self.{f}.hash(state);")).collect::<String>()),
                ("PartialEq", TyDef::Struct(s)) => format!("impl PartialEq for {n} {{ fn eq(&self, other: &{n}) -> bool {{ true {} }} }}", s.fields.iter().filter_map(|f| f.ident.as_ref()).map(|f| format!(" && self.{f} == other.{f}")).collect::<String>()),
                ("PartialEq", TyDef::Enum(e)) => format!("impl PartialEq for {n} {{ fn eq(&self, other: &{n}) -> bool {{ match (self, other) {{ {} _ => false }} }} }}", e.variants.iter().map(|v| { let m = v.fields.len(); let g = |p: &str| if m == 0 { String::new() } else { format!("({})", (0..m).map(|i| format!("{p}{i}")).collect::<Vec<_>>().join(", ")) }; format!("({n}::{}{}, {n}::{}{}) => true{},", v.ident, g("f"), v.ident, g("g"), (0..m).map(|i| format!(" && f{i} == g{i}")).collect::<String>()) }).collect::<String>()),
                _ => continue,
            };
            made.push((n.clone(), text));
        }
    }
    for (n, text) in made { match parse_str::<ItemImpl>(&text) { Ok(im) => items(k, &[Item::Impl(im)], Path::new(""), Path::new(""), &format!("derive on {}", n)), Err(e) => k.errors.push(format!("derive on {}: {}", n, e)) } }
}

struct Hoist(Vec<ItemFn>);
impl visit_mut::VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for s in old { if let Stmt::Item(Item::Fn(f)) = s { self.0.push(f) } else { b.stmts.push(s) } }
        visit_mut::visit_block_mut(self, b);
    }
}

fn rename_r(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, Ident, TokenTree};
    let mut out: Vec<TokenTree> = vec![];
    for x in t {
        let dot = matches!(out.last(), Some(TokenTree::Punct(p)) if p.as_char() == '.' || p.as_char() == '\'');
        out.push(match x {
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename_r(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
            TokenTree::Ident(i) if i == "r" && !dot => TokenTree::Ident(Ident::new("r_", i.span())),
            x => x,
        });
    }
    out.into_iter().collect()
}
