//! statements without effect, removed before anything else looks at the code
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use syn::*;

/// does the name occur in these tokens (or in a format string)?
fn occurs(t: TokenStream, n: &str) -> bool {
    t.into_iter().any(|x| match x {
        TokenTree::Ident(i) => i == n || i == format!("r#{}", n).as_str(),
        TokenTree::Group(g) => occurs(g.stream(), n),
        TokenTree::Literal(l) => { let s = l.to_string(); s.contains(&format!("{{{}", n)) }
        _ => false,
    })
}
fn last2(p: &Path) -> String { let v: Vec<String> = p.segments.iter().rev().take(2).map(|s| s.ident.to_string()).collect(); v.into_iter().rev().collect::<Vec<_>>().join("::") }
fn literal(e: &Expr) -> bool { match e { Expr::Lit(_) => true, Expr::Paren(p) => literal(&p.expr), Expr::Group(p) => literal(&p.expr), Expr::Unary(u) => literal(&u.expr), Expr::Binary(b) => !assigns(&b.op) && !matches!(b.op, BinOp::Div(_) | BinOp::Rem(_) | BinOp::Shl(_) | BinOp::Shr(_)) && literal(&b.left) && literal(&b.right), _ => false } }
fn assigns(o: &BinOp) -> bool { matches!(o, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) }
fn is_true(e: &Expr) -> bool { match e { Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => b.value, Expr::Paren(p) => is_true(&p.expr), Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => is_false(expr), Expr::Binary(b) => matches!(b.op, BinOp::Eq(_)) && literal(&b.left) && b.left.to_token_stream().to_string() == b.right.to_token_stream().to_string(), _ => false } }
fn is_false(e: &Expr) -> bool { match e { Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => !b.value, Expr::Paren(p) => is_false(&p.expr), Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => is_true(expr), _ => false } }
fn args(m: &Macro) -> Option<Vec<Expr>> { m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|x| x.into_iter().collect()) }
fn mac(m: &Macro) -> bool {
    let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    match n.as_str() {
        "line" | "file" | "column" | "stringify" | "module_path" => true,
        "vec" | "concat" | "format" | "println" | "eprintln" | "print" | "eprint" => m.tokens.is_empty() || args(m).map_or(false, |a| a.iter().all(none)),
        "assert" | "debug_assert" => args(m).map_or(false, |a| !a.is_empty() && is_true(&a[0])),
        "assert_eq" | "debug_assert_eq" => args(m).map_or(false, |a| a.len() >= 2 && literal(&a[0]) && a[0].to_token_stream().to_string() == a[1].to_token_stream().to_string()),
        _ => false,
    }
}
/// evaluating it does nothing but give a value: no panic, no change, no exit
fn none(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) | Expr::Closure(_) => true,
        Expr::Paren(p) => none(&p.expr),
        Expr::Group(p) => none(&p.expr),
        Expr::Reference(r) => r.mutability.is_none() && none(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(none),
        Expr::Array(t) => t.elems.iter().all(none),
        Expr::Field(f) => none(&f.base),
        Expr::Unary(u) => match u.op { UnOp::Not(_) => none(&u.expr), UnOp::Deref(_) => matches!(&*u.expr, Expr::Path(_)), _ => literal(&u.expr) },
        Expr::Binary(b) => literal(e) || (matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::And(_) | BinOp::Or(_)) && none(&b.left) && none(&b.right)),
        Expr::Cast(c) => none(&c.expr),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Call(c) => {
            let Expr::Path(p) = &*c.func else { return false };
            c.args.iter().all(none) && matches!(last2(&p.path).as_str(), "Vec::new" | "String::new" | "HashMap::new" | "Box::new" | "Rc::new" | "Some" | "Ok" | "Err" | "identity" | "convert::identity" | "black_box" | "hint::black_box" | "drop" | "mem::drop" | "size_of" | "mem::size_of" | "Default::default" | "String::from" | "mem::forget" | "default::default" | "align_of" | "mem::align_of" | "type_name" | "any::type_name")
        }
        Expr::MethodCall(m) => none(&m.receiver) && m.args.iter().all(none) && matches!(m.method.to_string().as_str(), "clone" | "len" | "is_empty" | "to_owned" | "as_str" | "iter" | "is_some" | "is_none" | "is_ok" | "is_err" | "as_ref"),
        Expr::If(i) => is_false(&i.cond) && i.else_branch.is_none() || (none(&i.cond) && i.then_branch.stmts.iter().all(stmt) && i.else_branch.as_ref().map_or(true, |x| none(&x.1))),
        Expr::Match(m) => none(&m.expr) && m.arms.iter().all(|a| a.guard.as_ref().map_or(true, |g| none(&g.1)) && none(&a.body)),
        Expr::Block(b) => b.label.is_none() && b.block.stmts.iter().all(stmt),
        Expr::While(w) => is_false(&w.cond),
        Expr::Loop(l) => l.body.stmts.len() == 1 && matches!(&l.body.stmts[0], Stmt::Expr(Expr::Break(b), _) if b.expr.is_none() && b.label.is_none()),
        Expr::ForLoop(f) => f.body.stmts.is_empty() && f.label.is_none() && (none(&f.expr) || matches!(&*f.expr, Expr::Range(r) if r.start.as_ref().map_or(true, |x| none(x)) && r.end.as_ref().map_or(false, |x| none(x)))),
        Expr::Verbatim(t) => t.is_empty(),
        _ => false,
    }
}
fn stmt(s: &Stmt) -> bool {
    match s {
        Stmt::Expr(e, _) => none(e),
        Stmt::Macro(m) => mac(&m.mac),
        Stmt::Local(l) => l.init.as_ref().map_or(true, |i| i.diverge.is_none() && none(&i.expr)),
        Stmt::Item(_) => true,
    }
}
fn names(p: &Pat) -> Option<Vec<String>> {
    match p {
        Pat::Wild(_) => Some(vec![]),
        Pat::Ident(i) if i.subpat.is_none() => Some(vec![i.ident.to_string()]),
        Pat::Type(t) => names(&t.pat),
        Pat::Paren(t) => names(&t.pat),
        Pat::Tuple(t) => { let mut v = vec![]; for x in &t.elems { v.extend(names(x)?); } Some(v) }
        _ => None,
    }
}
pub struct Dead;
impl visit_mut::VisitMut for Dead {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = b.stmts.len();
        while i > 0 {
            i -= 1;
            let last = i + 1 == b.stmts.len();
            let used = |n: &str| b.stmts[i + 1..].iter().any(|s| occurs(s.to_token_stream(), n));
            let dead = match &b.stmts[i] {
                Stmt::Local(l) => stmt(&b.stmts[i]) && names(&l.pat).map_or(false, |v| v.iter().all(|n| !used(n))),
                Stmt::Expr(e, semi) => none(e) && (semi.is_some() || (!last && matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)))),
                Stmt::Macro(m) => (m.semi_token.is_some() || !last) && mac(&m.mac),
                Stmt::Item(Item::Const(c)) => !used(&c.ident.to_string()),
                Stmt::Item(Item::Static(c)) => !used(&c.ident.to_string()),
                Stmt::Item(Item::Type(c)) => !used(&c.ident.to_string()),
                Stmt::Item(Item::Struct(c)) => !used(&c.ident.to_string()),
                Stmt::Item(Item::Fn(c)) => !b.stmts.iter().enumerate().any(|(j, s)| j != i && occurs(s.to_token_stream(), &c.sig.ident.to_string())),
                _ => false,
            };
            if dead { b.stmts.remove(i); continue; }
            // a variable that is only ever written to
            if let (Stmt::Local(l), true) = (&b.stmts[i], stmt(&b.stmts[i])) {
                if let Some(n) = names(&l.pat).filter(|v| v.len() == 1).map(|v| v[0].clone()) {
                    let write = |s: &Stmt| match s {
                        Stmt::Expr(Expr::Assign(a), _) => matches!(&*a.left, Expr::Path(p) if p.path.is_ident(&n)) && none(&a.right) && !occurs(a.right.to_token_stream(), &n),
                        Stmt::Expr(Expr::Binary(a), _) => assigns(&a.op) && matches!(&*a.left, Expr::Path(p) if p.path.is_ident(&n)) && literal(&a.right),
                        _ => false,
                    };
                    if b.stmts[i + 1..].iter().all(|s| write(s) || !occurs(s.to_token_stream(), &n)) {
                        let tail: Vec<Stmt> = b.stmts.drain(i + 1..).filter(|s| !write(s)).collect();
                        b.stmts.truncate(i);
                        b.stmts.extend(tail);
                    }
                }
            }
        }
    }
}
