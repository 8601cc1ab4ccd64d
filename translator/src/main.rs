//! translator --src /repo/src --contracts DIR --family F --out FILE --meta FILE [--external keys-file] [--drop ids-file]
//! Re-emits the crate's functions, read from their sources, as Verus code with the contracts of one family.
mod inline;
mod dead;
mod expand;
mod krate;
mod tr;
use krate::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;
use tr::*;

#[derive(Default, Clone)]
struct Con {
    ensures: Vec<(String, String)>,
    also: Vec<(String, String)>,
    requires: Vec<(String, String)>,
    loops: BTreeMap<usize, Vec<(String, String)>>,
    start: String,
    attrs: Vec<String>,
    decreases: Option<String>,
    uses: Vec<String>,
    groups: Vec<String>,
    closures: Option<String>,
}
#[derive(Default)]
struct Fam {
    name: String,
    rs: Vec<String>,
    cons: BTreeMap<String, Con>,
    loops: Vec<(String, String)>,
    groups: BTreeMap<String, Vec<(String, String)>>,
    uses: Vec<String>,
    /// functions taken on trust in this family (patterns)
    assume: Vec<String>,
    /// functions left out (patterns)
    leave: Vec<String>,
    /// if given: the functions looked at
    only: Vec<String>,
    valty: Vec<String>,
    itemty: Vec<String>,
    flags: BTreeSet<String>,
    noclone: Vec<String>,
    attrs: Vec<String>,
}
fn glob(p: &str, s: &str) -> bool {
    let parts: Vec<&str> = p.split('*').collect();
    if parts.len() == 1 { return p == s; }
    let mut i = 0;
    for (n, q) in parts.iter().enumerate() {
        if n == 0 { if !s.starts_with(q) { return false; } i = q.len(); }
        else if n == parts.len() - 1 { return s.len() >= i + q.len() && s[i..].ends_with(q); }
        else { match s[i..].find(q) { Some(j) => i += j + q.len(), None => return false } }
    }
    true
}
fn load_family(dir: &str, name: &str, f: &mut Fam) {
    let rs = format!("{}/{}.rs", dir, name);
    let con = std::fs::read_to_string(format!("{}/{}.con", dir, name)).unwrap_or_default();
    // included files come first
    let mut cur: Option<String> = None;
    let mut sect: (u8, String) = (0, String::new()); // 0 none 1 ensures 2 loop 3 start 4 loops 5 requires
    let mut lp = 0usize;
    let mut grp = String::new();
    for l in con.lines() {
        let t = l.trim();
        if t.starts_with("#") && !t.starts_with("#[") { continue; }
        if let Some(d) = t.strip_prefix('@') {
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            sect.0 = 0;
            match w {
                "include" => load_family(dir, rest, f),
                "use" => { let v = rest.split(',').map(|x| x.trim().to_string()); match &cur { Some(k) => f.cons.get_mut(k).unwrap().uses.extend(v), None => f.uses.extend(v) } }
                "assume" => f.assume.push(rest.into()),
                "verify" => f.assume.retain(|x| x != rest),
                "verus" => {}
                "only" => f.only.push(rest.into()),
                "leave" => f.leave.push(rest.into()),
                "valty" => f.valty.extend(rest.split(';').map(|x| x.trim().to_string())),
                "itemty" => f.itemty.extend(rest.split(';').map(|x| x.trim().to_string())),
                "flag" => { f.flags.insert(rest.into()); }
                "noclone" => f.noclone.push(rest.into()),
                "fnattr" => f.attrs.push(rest.into()),
                "fn" => { cur = Some(rest.to_string()); f.cons.entry(rest.to_string()).or_default(); }
                "loops" => { cur = None; sect.0 = 4; grp = rest.to_string(); }
                "tmpl" => f.cons.get_mut(cur.as_ref().unwrap()).unwrap().groups.extend(rest.split(',').map(|x| x.trim().to_string())),
                "also" => { let (n, e) = rest.split_once('|').unwrap_or((rest, "")); let c = f.cons.get_mut(cur.as_ref().unwrap()).unwrap(); sect.0 = 6; c.also.push((n.trim().into(), e.trim().into())); }
                "ensures" | "requires" => { let (n, e) = rest.split_once('|').unwrap_or((rest, "")); let c = f.cons.get_mut(cur.as_ref().unwrap()).unwrap(); let v = if w == "ensures" { sect.0 = 1; &mut c.ensures } else { sect.0 = 5; &mut c.requires }; v.push((n.trim().into(), e.trim().into())); }
                "loop" => { sect.0 = 2; lp = rest.parse().unwrap(); f.cons.get_mut(cur.as_ref().unwrap()).unwrap().loops.insert(lp, vec![]); }
                "start" => { sect.0 = 3; let c = f.cons.get_mut(cur.as_ref().unwrap()).unwrap(); c.start.push_str(rest); c.start.push('\n'); }
                // other postconditions instead
                "redo" => f.cons.get_mut(cur.as_ref().unwrap()).unwrap().ensures.clear(),
                "attr" => f.cons.get_mut(cur.as_ref().unwrap()).unwrap().attrs.push(rest.into()),
                "closures" => f.cons.get_mut(cur.as_ref().unwrap()).unwrap().closures = Some(rest.into()),
                "decreases" => f.cons.get_mut(cur.as_ref().unwrap()).unwrap().decreases = Some(rest.into()),
                _ => panic!("{}: @{}", name, w),
            }
            continue;
        }
        if t.is_empty() { continue; }
        match sect.0 {
            1 => { let v = &mut f.cons.get_mut(cur.as_ref().unwrap()).unwrap().ensures; let n = v.len(); v[n - 1].1.push_str(&format!(" {}", t)); }
            6 => { let v = &mut f.cons.get_mut(cur.as_ref().unwrap()).unwrap().also; let n = v.len(); v[n - 1].1.push_str(&format!(" {}", t)); }
            5 => { let v = &mut f.cons.get_mut(cur.as_ref().unwrap()).unwrap().requires; let n = v.len(); v[n - 1].1.push_str(&format!(" {}", t)); }
            2 | 4 => { let (k, x) = t.split_once(char::is_whitespace).unwrap_or((t, "")); let e = (k.trim_end_matches(':').to_string(), x.trim().to_string()); if sect.0 == 4 { if grp.is_empty() { f.loops.push(e) } else { f.groups.entry(grp.clone()).or_default().push(e) } } else { f.cons.get_mut(cur.as_ref().unwrap()).unwrap().loops.get_mut(&lp).unwrap().push(e) } }
            3 => { let c = f.cons.get_mut(cur.as_ref().unwrap()).unwrap(); c.start.push_str(l); c.start.push('\n'); }
            _ => panic!("{}: stray line {}", name, l),
        }
    }
    if let Ok(s) = std::fs::read_to_string(&rs) { f.rs.push(s); }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class { Pure, Rel, Contract, None, Leave }

/// parameters that hold functions: name -> (types of its arguments, result)
fn fn_param(t: &Type, g: &Generics) -> Option<(Vec<Type>, Option<Type>)> {
    fn of_bounds<'a>(b: impl Iterator<Item = &'a TypeParamBound>) -> Option<(Vec<Type>, Option<Type>)> {
        for x in b { if let TypeParamBound::Trait(t) = x { let s = t.path.segments.last().unwrap(); if matches!(s.ident.to_string().as_str(), "Fn" | "FnMut" | "FnOnce") { if let PathArguments::Parenthesized(p) = &s.arguments { return Some((p.inputs.iter().cloned().collect(), match &p.output { ReturnType::Type(_, t) => Some((**t).clone()), _ => None })); } } } }
        None
    }
    match t {
        Type::Reference(r) => fn_param(&r.elem, g),
        Type::Paren(p) => fn_param(&p.elem, g),
        Type::TraitObject(o) => of_bounds(o.bounds.iter()),
        Type::ImplTrait(o) => of_bounds(o.bounds.iter()),
        Type::Path(p) => { let i = p.path.get_ident()?; let mut r = g.type_params().find(|x| x.ident == *i).and_then(|x| of_bounds(x.bounds.iter())); if r.is_none() { if let Some(w) = &g.where_clause { for q in &w.predicates { if let WherePredicate::Type(t) = q { if toks(&t.bounded_ty) == i.to_string() { r = of_bounds(t.bounds.iter()); } } } } } r }
        _ => None,
    }
}
fn strip_ref_ty(t: &Type) -> &Type { match t { Type::Reference(r) => strip_ref_ty(&r.elem), t => t } }

struct Out { text: String, line: usize }
impl Out { fn w(&mut self, s: &str) -> (usize, usize) { let a = self.line; self.text.push_str(s); if !s.ends_with('\n') { self.text.push('\n'); } self.line = self.text.matches('\n').count() + 1; (a, self.line - 1) } }

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => {}, c => o.push(c) } } o.push('"'); o }

struct Made { exec: String, specs: String, err: Option<String>, ens_lines: Vec<(usize, String)>, class: Class, external: bool, notes: Vec<String>, bare: usize, cands: usize }

struct Gen<'a> { k: &'a Krate, fam: &'a Fam, pure_: BTreeSet<String>, rel: BTreeSet<String>, dropc: BTreeSet<String>, external: BTreeSet<String>, empty: BTreeMap<usize, Vec<(String, String)>> }

impl<'a> Gen<'a> {
    fn tr<'b>(&'b self, f: &FnInfo, tmpl: &'b BTreeMap<usize, Vec<(String, String)>>) -> Tr<'b> {
        let t = Tr { k: self.k, pure_: &self.pure_, rel: &self.rel, slf: f.slf.clone().unwrap_or(Ty::Unk), sc: RefCell::new(vec![Default::default()]), uniq: Cell::new(0), loops: Cell::new(0), tmpl, dflt: self.dflt_of(f), dropc: &self.dropc, valty: &self.fam.valty, itemty: &self.fam.itemty, fkey: f.key.clone(), cands: Cell::new(0), params: self.params_sub(f), bare_loops: Cell::new(0), notes: RefCell::new(vec![]), veq: self.fam.flags.contains("veq"), ieee: self.fam.flags.contains("ieee"), text: self.fam.flags.contains("text"), mode_p: self.fam.flags.contains("panics"), term: self.fam.flags.contains("term"), closures: self.fam.cons.get(&f.key).and_then(|c| c.closures.clone()), cond: RefCell::new(String::new()), reqs: if self.fam.flags.contains("panics") { self.fam.cons.iter().filter(|c| !c.1.requires.is_empty()).map(|c| c.0.clone()).collect() } else { BTreeSet::new() }, fn_params: BTreeSet::new(), ret_ty: f.ret.clone() };
        t
    }
    /// the loop templates tried in a function: those it names, or all of them
    fn dflt_of(&self, f: &FnInfo) -> Vec<(String, String)> {
        let mut v = self.fam.loops.clone();
        let named = self.fam.cons.get(&f.key).map(|c| c.groups.clone()).unwrap_or_default();
        for (n, g) in &self.fam.groups { if named.is_empty() || named.contains(n) { v.extend(g.iter().cloned()); } }
        v
    }
    /// what $0, $1, … stand for
    fn params_sub(&self, f: &FnInfo) -> Vec<String> {
        f.sig.inputs.iter().zip(&f.params).map(|(a, p)| match a {
            FnArg::Receiver(r) => if r.reference.is_some() { if r.mutability.is_some() { "(*final(self))".into() } else { "(*self)".into() } } else if f.slf_text.starts_with("&") { "(*self)".into() } else { "self".into() },
            FnArg::Typed(t) => match &*t.ty { Type::Reference(r) if fn_param(&t.ty, &f.sig.generics).is_none() => if r.mutability.is_some() { format!("(*final({}))", p.0) } else { format!("(*{})", p.0) }, _ => p.0.clone() },
        }).collect()
    }
    fn sub(&self, f: &FnInfo, e: &str) -> String {
        let mut s = e.to_string();
        for (i, p) in self.params_sub(f).iter().enumerate() { s = s.replace(&format!("old${}", i), &p.replace("final(", "old(")); s = s.replace(&format!("${}", i), p); }
        s
    }
    fn contract(&self, f: &FnInfo) -> Option<&Con> { self.fam.cons.get(&f.key).filter(|c| !c.ensures.is_empty()) }
    fn left(&self, f: &FnInfo) -> bool { !self.fam.only.is_empty() && !self.fam.only.iter().any(|p| match p.strip_prefix("file:") { Some(p) => glob(p, &f.file), None => glob(p, &f.key) }) || self.fam.leave.iter().any(|p| glob(p, &f.key)) }
    /// parameters in the specification's signature, and the extra generic ones
    fn spec_params(&self, f: &FnInfo, tr: &Tr) -> std::result::Result<String, String> {
        let mut v = vec![];
        for (a, p) in f.sig.inputs.iter().zip(&f.params) {
            match a {
                FnArg::Receiver(r) => v.push(if r.reference.is_some() { "&self".to_string() } else { "self".to_string() }),
                FnArg::Typed(t) => if let Some((args, res)) = fn_param(&t.ty, &f.sig.generics) {
                    let mut w = vec![];
                    for x in &args { w.push(tr.type_(strip_ref_ty(x))?); }
                    v.push(format!("{}: spec_fn({}) -> {}", p.0, w.join(", "), match res { Some(t) => tr.type_(&t)?, None => "()".into() }));
                } else { v.push(format!("{}: {}", p.0, tr.type_(&t.ty)?)) },
            }
        }
        Ok(v.join(", "))
    }
    fn ret_text(&self, f: &FnInfo, tr: &Tr) -> Res { match &f.sig.output { ReturnType::Default => Ok("()".into()), ReturnType::Type(_, t) => if type_text(t) == "Self::Output" { tr.type_(f.out.as_ref().ok_or("no output type")?) } else { tr.type_(t) } } }
    fn classify(&mut self) {
        // contracts first, then the least fixpoint of what can be given a functional or relational form
        for f in &self.k.fns { if !matches!(f.kind, Kind::Trait(_)) && self.contract(f).is_some() && !f.mut_params { self.rel.insert(f.key.clone()); } }
        for pass in 0..2 { loop {
            let mut change = false;
            for f in &self.k.fns {
                if matches!(f.kind, Kind::Trait(_)) || f.mut_params || self.contract(f).is_some() || self.left(f) { continue; }
                if pass == 0 && !self.pure_.contains(&f.key) && self.spec_text(f).is_ok() { self.pure_.insert(f.key.clone()); change = true; }
                if pass == 1 && !self.pure_.contains(&f.key) && !self.rel.contains(&f.key) && self.post_text(f).is_ok() { self.rel.insert(f.key.clone()); change = true; }
            }
            if !change { break; }
        } }
    }
    fn start(&self, f: &FnInfo, tr: &mut Tr) {
        for (a, p) in f.sig.inputs.iter().zip(&f.params) { tr.bind(&p.0, p.1.clone()); if let FnArg::Typed(t) = a { if fn_param(&t.ty, &f.sig.generics).is_some() { tr.fn_params.insert(p.0.clone()); } } }
    }
    fn spec_text(&self, f: &FnInfo) -> Res { let mut tr = self.tr(f, &self.empty); self.start(f, &mut tr); self.spec_params(f, &tr)?; self.ret_text(f, &tr)?; tr.sp_block(&f.block) }
    fn post_text(&self, f: &FnInfo) -> Res { let mut tr = self.tr(f, &self.empty); self.start(f, &mut tr); if !tr.fn_params.is_empty() { return Err("function parameter".into()); } self.spec_params(f, &tr)?; self.ret_text(f, &tr)?; tr.post_stmts(&f.block.stmts.iter().collect::<Vec<_>>(), "r") }

    fn make(&self, f: &FnInfo) -> Made {
        let mut m = Made { exec: String::new(), specs: String::new(), err: None, ens_lines: vec![], class: Class::None, external: false, notes: vec![], bare: 0, cands: 0 };
        let con = self.fam.cons.get(&f.key);
        let has = self.contract(f);
        m.class = if has.is_some() { Class::Contract } else if self.pure_.contains(&f.key) { Class::Pure } else if self.rel.contains(&f.key) { Class::Rel } else { Class::None };
        let tmpl = con.map(|c| c.loops.clone()).unwrap_or_default();
        let mut tr = self.tr(f, &tmpl);
        self.start(f, &mut tr);
        // signature
        let mut ps = vec![];
        let mut gens: Vec<String> = vec![];
        let mut fps: Vec<(String, Vec<String>, Vec<bool>, String)> = vec![];
        let r: std::result::Result<(), String> = (|| {
            for (a, p) in f.sig.inputs.iter().zip(&f.params) {
                match a {
                    FnArg::Receiver(r) => ps.push(match (r.reference.is_some(), r.mutability.is_some()) { (true, true) => "&mut self".to_string(), (true, false) => "&self".into(), (false, true) => "mut self".into(), _ => "self".into() }),
                    FnArg::Typed(t) => {
                        if let Some((args, res)) = fn_param(&t.ty, &f.sig.generics) {
                            let g = format!("F{}__", gens.len());
                            let mut av = vec![]; let mut sv = vec![]; let mut refs = vec![];
                            for x in &args { av.push(tr.type_(x)?); sv.push(tr.type_(strip_ref_ty(x))?); refs.push(matches!(x, Type::Reference(_))); }
                            let rt = match &res { Some(t) => tr.type_(t)?, None => "()".into() };
                            gens.push(format!("{}: Fn({}) -> {}", g, av.join(", "), rt));
                            ps.push(format!("{}: &{}", p.0, g));
                            ps.push(format!("Ghost({}__p): Ghost<{}<{}, {}>>", p.0, if sv.len() == 2 { "MapSpec2" } else { "MapSpec" }, sv.join(", "), rt));
                            fps.push((p.0.clone(), av, refs, rt));
                        } else {
                            let mutp = matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some());
                            ps.push(format!("{}{}: {}", if mutp { "mut " } else { "" }, p.0, tr.type_(&t.ty)?));
                        }
                    }
                }
            }
            Ok(())
        })();
        let rt = self.ret_text(f, &tr);
        let istrait = matches!(f.kind, Kind::Trait(_));
        let (name, isop) = match &f.kind { Kind::Trait(_) => (if f.name == "eq" && self.fam.flags.contains("veq") { "veq".into() } else { method_name(&f.name) }, false), Kind::Op(o) => (OPS.iter().find(|x| x.0 == o).unwrap().2.to_string(), true), _ => (f.name.clone(), false) };
        if let (Err(e), _) | (_, Err(e)) = (&r, &rt) { m.err = Some(format!("signature: {}", e)); m.class = Class::None; m.external = true; return m; }
        let rt = rt.unwrap();
        let sps = match self.spec_params(f, &tr) { Ok(s) => s, Err(e) => { m.err = Some(e); m.external = true; return m; } };
        let names: Vec<String> = f.params.iter().map(|p| p.0.clone()).collect();
        let call = |n: &str, extra: &str| -> String { let recv = names.first().map_or(false, |x| x == "self"); let a: Vec<String> = names.iter().skip(recv as usize).cloned().chain(if extra.is_empty() { None } else { Some(extra.to_string()) }).collect(); if recv { format!("self.{}({})", n, a.join(", ")) } else if f.slf.is_some() { format!("Self::{}({})", n, a.join(", ")) } else { format!("{}({})", n, a.join(", ")) } };
        // specification
        let mut ens: Vec<(String, String)> = vec![];
        let mut req: Vec<(String, String)> = vec![];
        let q = if isop || istrait { "" } else { "pub " };
        match m.class {
            Class::Pure => {
                let s = self.spec_text(f).unwrap();
                m.specs.push_str(&format!("{}open spec fn {}__s({}) -> {} {{ {} }}\n", q, name, sps, rt, s));
                if isop { m.specs.push_str(&format!("open spec fn {}__post({}, r: {}) -> bool {{ r == {} }}\n", name, sps, rt, call(&format!("{}__s", name), ""))); }
                if fps.is_empty() { ens.push(("value".into(), format!("r == {}", call(&format!("{}__s", name), "")))); }
                else {
                    // with functions given: for the specifications they come with
                    let mut cond = vec![]; let mut args = vec![];
                    for n in &names { if let Some((n, av, refs, rt)) = fps.iter().find(|x| x.0 == *n) { let vs: Vec<String> = (0..av.len()).map(|i| format!("x{}", i)).collect(); cond.push(format!("{}__p is Fun && (forall|{}, y: {}| {}.ensures(({},), y) ==> y == {}__p->Fun_0({}))", n, vs.iter().zip(av).map(|(v, t)| format!("{}: {}", v, t)).collect::<Vec<_>>().join(", "), rt, n, vs.join(", "), n, vs.iter().zip(refs).map(|(v, r)| format!("{}{}", if *r { "*" } else { "" }, v)).collect::<Vec<_>>().join(", "))); args.push(format!("{}__p->Fun_0", n)); } else if n != "self" { args.push(n.clone()); } }
                    let lhs = if names.first().map_or(false, |x| x == "self") { format!("self.{}__s({})", name, args.join(", ")) } else if f.slf.is_some() { format!("Self::{}__s({})", name, args.join(", ")) } else { format!("{}__s({})", name, args.join(", ")) };
                    ens.push(("value".into(), format!("({}) ==> r == {}", cond.join(" && "), lhs)));
                }
            }
            Class::Rel => {
                let s = self.post_text(f).unwrap();
                m.specs.push_str(&format!("{}open spec fn {}__post({}{}r: {}) -> bool {{ {} }}\n", q, name, sps, if sps.is_empty() { "" } else { ", " }, rt, s));
                if isop { m.specs.push_str(&format!("open spec fn {}__s({}) -> {} {{ arbitrary() }}\n", name, sps, rt)); }
                ens.push(("composition".into(), call(&format!("{}__post", name), "r")));
            }
            Class::Contract => {
                let c = has.unwrap();
                for (n, e) in &c.ensures { ens.push((n.clone(), self.sub(f, e))); }
                for (n, e) in &c.requires { req.push((n.clone(), self.sub(f, e))); }
                if !f.mut_params && fps.is_empty() {
                    let conj = if ens.is_empty() { "true".to_string() } else { ens.iter().map(|x| format!("({})", x.1)).collect::<Vec<_>>().join(" && ") };
                    m.specs.push_str(&format!("{}open spec fn {}__post({}{}r: {}) -> bool {{ {} }}\n", q, name, sps, if sps.is_empty() { "" } else { ", " }, rt, conj));
                    if isop { m.specs.push_str(&format!("open spec fn {}__s({}) -> {} {{ arbitrary() }}\n", name, sps, rt)); ens = vec![("contract".into(), call(&format!("{}__post", name), "r"))]; }
                }
            }
            _ => if isop { m.specs.push_str(&format!("open spec fn {}__s({}) -> {} {{ arbitrary() }}\nopen spec fn {}__post({}, r: {}) -> bool {{ true }}\n", name, sps, rt, name, sps, rt)); }
        }
        if !matches!(m.class, Class::Contract) { if let Some(c) = con { for (n, e) in &c.requires { req.push((n.clone(), self.sub(f, e))); } } }
        if !req.is_empty() && !isop && !istrait && fps.is_empty() && !f.mut_params { m.specs.push_str(&format!("pub open spec fn {}__req({}) -> bool {{ {} }}\n", name, sps, req.iter().map(|x| format!("({})", x.1)).collect::<Vec<_>>().join(" && "))); }
        if let Some(c) = con { for (n, e) in &c.also { ens.push((n.clone(), self.sub(f, e))); } }
        // body
        let assumed = self.fam.assume.iter().any(|p| glob(p, &f.key));
        let forced = self.external.contains(&f.key);
        let mut body = String::new();
        let made = tr.ex_block(&f.block, &mut body);
        m.notes = tr.notes.borrow().clone();
        if m.class == Class::None { m.notes.push(format!("not a formula: {}; {}", self.spec_text(f).err().unwrap_or_default(), self.post_text(f).err().unwrap_or_default())); }
        m.bare = tr.bare_loops.get();
        m.cands = tr.cands.get();
        m.external = assumed || forced || made.is_err();
        if let Err(e) = made { m.err = Some(e); }
        let mut o = String::new();
        if m.external { o.push_str("#[verifier::external_body]\n"); } else { for a in self.fam.attrs.iter().chain(con.iter().flat_map(|c| c.attrs.iter())) { o.push_str(a); o.push('\n'); } }
        if istrait { ens.clear(); req.clear(); }
        o.push_str(&format!("{}fn {}{}({}) -> (r: {})\n", q, name, if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) }, ps.join(", "), rt));
        if !isop {
            if !req.is_empty() { o.push_str("  requires\n"); for (n, e) in &req { o.push_str(&format!("    ({}), /*req:{}*/\n", e, n)); } }
            if !ens.is_empty() { o.push_str("  ensures\n"); for (n, e) in &ens { m.ens_lines.push((o.matches('\n').count(), n.clone())); o.push_str(&format!("    ({}), /*ens:{}*/\n", e, n)); } }
            if let Some(d) = con.and_then(|c| c.decreases.clone()) { o.push_str(&format!("  decreases {}\n", self.sub(f, &d))); }
        }
        if m.external { o.push_str("{ unimplemented!() }\n"); } else {
            let uses: Vec<String> = self.fam.uses.iter().cloned().chain(con.iter().flat_map(|c| c.uses.iter().cloned())).collect();
            let start = format!("{{\n{}{}", uses.iter().map(|u| format!("broadcast use {};\n", u)).collect::<String>(), con.map(|c| self.sub(f, &c.start)).unwrap_or_default());
            let whole = self.fam.attrs.iter().any(|a| a.contains("loop_isolation(false)"));
            let inner = if whole { String::new() } else { uses.iter().map(|u| format!(" broadcast use {};", u)).collect::<String>() };
            o.push_str(&body.replacen("{\n", &start, 1).replace("/*USE*/{", &format!("{{{}", inner)).replace("/*USE*/", ""));
        }
        m.exec = o;
        m
    }
}

fn type_decl(t: &TyDef, tr: &Tr) -> std::result::Result<String, String> {
    Ok(match t {
        TyDef::Struct(s) => {
            let g = toks(&s.generics);
            match &s.fields {
                Fields::Named(n) => format!("pub struct {}{} {{ {} }}", s.ident, g, n.named.iter().map(|f| Ok(format!("pub {}: {}", f.ident.as_ref().unwrap(), tr.type_(&f.ty)?))).collect::<std::result::Result<Vec<_>, String>>()?.join(", ")),
                Fields::Unit => format!("pub struct {}{};", s.ident, g),
                Fields::Unnamed(n) => format!("pub struct {}{}({});", s.ident, g, n.unnamed.iter().map(|f| Ok(format!("pub {}", tr.type_(&f.ty)?))).collect::<std::result::Result<Vec<_>, String>>()?.join(", ")),
            }
        }
        TyDef::Enum(e) => format!("pub enum {}{} {{ {} }}", e.ident, toks(&e.generics), e.variants.iter().map(|v| Ok(format!("{}{}", v.ident, if v.fields.is_empty() { String::new() } else { format!("({})", v.fields.iter().map(|f| tr.type_(&f.ty)).collect::<std::result::Result<Vec<_>, _>>()?.join(", ")) }))).collect::<std::result::Result<Vec<_>, String>>()?.join(", ")),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let src = arg("--src").unwrap_or("/repo/src".into());
    let dir = arg("--contracts").unwrap_or("/verif/contracts".into());
    let famn = arg("--family").unwrap();
    let read = |k: &str| -> BTreeSet<String> { arg(k).and_then(|p| std::fs::read_to_string(p).ok()).map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()).unwrap_or_default() };
    let mut k = load(std::path::Path::new(&src));
    if a.iter().any(|x| x == "--list") { for f in &k.fns { println!("{}", f.key); } return; }
    let mut fam = Fam { name: famn.clone(), ..Default::default() };
    load_family(&dir, &famn, &mut fam);
    // helpers the contracts do not know are put back where they are called
    let known: BTreeSet<String> = std::fs::read_to_string(format!("{}/functions.txt", dir)).unwrap_or_default().lines().map(|l| l.to_string()).collect();
    if k.fns.iter().any(|f| !known.contains(&f.key)) {
        let pure_ = BTreeSet::new();
        inline::run(&mut k, &known, &pure_);
    }
    let mut g = Gen { k: &k, fam: &fam, pure_: BTreeSet::new(), rel: BTreeSet::new(), dropc: read("--drop"), external: read("--external"), empty: BTreeMap::new() };
    g.classify();
    let mut o = Out { text: String::new(), line: 1 };
    o.w(if fam.flags.contains("term") { "#![allow(warnings)]\n" } else { "#![allow(warnings)]\n#![verifier::exec_allows_no_decreases_clause]\n" });
    o.w("use vstd::prelude::*;\nuse std::cmp::Ordering;\nverus! {\n");
    // types
    let dummy = FnInfo { key: String::new(), name: String::new(), slf: None, slf_text: String::new(), rhs: None, out: None, sig: parse_str("fn f()").unwrap(), block: parse_str("{}").unwrap(), kind: Kind::Free, file: String::new(), params: vec![], ret: Ty::Unk, mut_params: false, generics: String::new() };
    let mut errors = k.errors.clone();
    {
        let tr = g.tr(&dummy, &g.empty);
        for (n, t) in &k.types {
            match type_decl(t, &tr) { Ok(s) => { o.w(&s); } Err(e) => errors.push(format!("type {}: {}", n, e)) }
            if let TyDef::Enum(e) = t { if e.generics.params.is_empty() { o.w(&format!("impl {} {{ pub open spec fn disc__s(&self) -> int {{ match self {{ {} }} }} }}\n", n, e.variants.iter().enumerate().map(|(i, v)| format!("{}::{}{} => {}", n, v.ident, if v.fields.is_empty() { "" } else { "(..)" }, i)).collect::<Vec<_>>().join(", "))); } }
            if k.derives[n].iter().any(|d| d == "Clone") && !fam.noclone.iter().any(|x| x == n) {
                let gp = match t { TyDef::Struct(s) => s.generics.type_params().map(|p| p.ident.to_string()).collect::<Vec<_>>(), TyDef::Enum(s) => s.generics.type_params().map(|p| p.ident.to_string()).collect() };
                let ga = if gp.is_empty() { String::new() } else { format!("<{}>", gp.join(", ")) };
                o.w(&format!("impl{} Clone for {}{} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}", ga, n, ga));
            }
        }
        for c in &k.consts { match (tr.type_(&c.ty), tr.ex(&c.expr)) { (Ok(t), Ok(e)) => { o.w(&format!("pub const {}: {} = {};", c.ident, t, e)); } (Err(e), _) | (_, Err(e)) => errors.push(format!("const {}: {}", c.ident, e)) } }
    }
    let ieee = fam.flags.contains("ieee");
    for r in &fam.rs {
        let r: Vec<&str> = r.lines().filter_map(|l| match l.strip_prefix("//@ieee ") { Some(x) => if ieee { Some(x) } else { None }, None => if ieee && l.ends_with(" //@real") { None } else { Some(l.trim_end_matches(" //@real")) } }).collect();
        o.w(&expand::expand(&r.join("\n"), fam.flags.contains("panics"), fam.flags.contains("panics") || fam.flags.contains("term")));
    }
    // functions
    let mut meta = vec![];
    for f in &k.fns {
        if matches!(f.kind, Kind::Trait(_)) && !fam.flags.contains(&format!("trait {}", match &f.kind { Kind::Trait(t) => t.clone(), _ => String::new() })) { continue; }
        if g.left(f) { continue; }
        let m = g.make(f);
        let mut s = String::new();
        let head;
        match &f.kind {
            Kind::Free => { head = String::new(); s.push_str(&m.specs); }
            Kind::Inherent => { let gen = &f.generics; let tr = g.tr(f, &g.empty); let st = parse_str::<Type>(&f.slf_text).ok().and_then(|t| tr.type_(&t).ok()).unwrap_or(f.slf_text.clone()); head = format!("impl{} {} {{\n", gen, st); s.push_str(&head); s.push_str(&m.specs); }
            Kind::Op(op) => {
                let tr = g.tr(f, &g.empty);
                let x = OPS.iter().find(|x| x.0 == op).unwrap();
                let st = parse_str::<Type>(&f.slf_text).ok().and_then(|t| tr.type_(&t).ok()).unwrap_or(f.slf_text.clone());
                let rhs = if op == "Neg" { String::new() } else { format!("<{}>", f.rhs.as_ref().and_then(|t| tr.type_(if type_text(t) == "Self" { t } else { t }).ok()).unwrap_or_default()) };
                let out = f.out.as_ref().and_then(|t| tr.type_(t).ok()).unwrap_or("Self".into());
                head = format!("impl {}{} for {} {{\ntype O = {};\n", x.1, rhs, st, out);
                s.push_str(&head);
                if op != "Neg" { let rt = f.rhs.as_ref().and_then(|t| tr.type_(t).ok()).unwrap_or_default(); if !fam.flags.contains("panics") { s.push_str(&format!("open spec fn {}__req(self, o: {}) -> bool {{ true }}\n", x.2, rt)); } else { s.push_str(&format!("open spec fn {}__req(self, {}: {}) -> bool {{ {} }}\n", x.2, f.params.get(1).map(|p| p.0.clone()).unwrap_or("o".into()), rt, fam.cons.get(&f.key).and_then(|c| c.requires.first()).map(|r| g.sub(f, &r.1)).unwrap_or("true".into()))); } }
                s.push_str(&m.specs);
            }
            Kind::Trait(t) => {
                let tr = g.tr(f, &g.empty);
                let st = parse_str::<Type>(&f.slf_text).ok().and_then(|t| tr.type_(&t).ok()).unwrap_or(f.slf_text.clone());
                head = format!("impl{} {} for {} {{\n", f.generics, match t.as_str() { "PartialEq" if fam.flags.contains("veq") => "VEq", "Ord" => "VCmp", "PartialOrd" => "VPCmp", "Hash" => "VHash", "Display" => "VDisp", t => t }, st);
                s.push_str(&head);
            }
        }
        let pre = s.matches('\n').count();
        s.push_str(&m.exec);
        if !matches!(f.kind, Kind::Free) { s.push_str("}\n"); }
        if m.exec.is_empty() { meta.push((f, m, 0, 0, 0)); continue; }
        let (b, e) = o.w(&s);
        meta.push((f, m, b, e, b + pre));
    }
    o.w("}\nfn main() {}\n");
    std::fs::write(arg("--out").unwrap(), &o.text).unwrap();
    let mut j = String::from("{\"fns\":[\n");
    for (i, (f, m, b, e, x)) in meta.iter().enumerate() {
        j.push_str(&format!("{}{{\"key\":{},\"file\":{},\"start\":{},\"end\":{},\"exec\":{},\"class\":{},\"external\":{},\"error\":{},\"bare_loops\":{},\"candidates\":{},\"notes\":[{}],\"ensures\":[{}],\"contract\":{}}}\n", if i > 0 { "," } else { "" }, jstr(&f.key), jstr(&f.file), b, e, x, jstr(&format!("{:?}", m.class)), m.external, m.err.as_ref().map(|e| jstr(e)).unwrap_or("null".into()), m.bare, m.cands, m.notes.iter().map(|n| jstr(n)).collect::<Vec<_>>().join(","), m.ens_lines.iter().map(|(l, n)| format!("[{},{}]", x + l, jstr(n))).collect::<Vec<_>>().join(","), fam.cons.contains_key(&f.key)));
    }
    let lost: Vec<String> = fam.cons.keys().filter(|c| !k.fns.iter().any(|f| f.key == **c)).map(|c| jstr(c)).collect();
    j.push_str(&format!("],\"errors\":[{}],\"dropped\":[{}],\"lost\":[{}],\"family\":{}}}\n", errors.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(","), k.dropped.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(","), lost.join(","), jstr(&fam.name)));
    std::fs::write(arg("--meta").unwrap(), j).unwrap();
}
