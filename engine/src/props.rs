use crate::gen::*;
use crate::oracle::*;
use crate::term::*;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use ncas::manipulation::simplification_rules::rational::rationals::Rational;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::{One, Pow, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

/// Ok(true) checked, Ok(false) nothing to check on this case, Err a violation
pub type R = Result<bool, String>;

pub fn envs() -> Vec<Env> {
    vec![
        vec![q(2, 1), q(3, 1), q(5, 1), q(1, 2), q(7, 3), q(11, 1), q(13, 1), q(3, 7)],
        vec![q(1, 3), q(7, 2), q(1, 5), q(4, 1), q(9, 1), q(2, 3), q(5, 4), q(6, 1)],
        vec![q(-2, 1), q(3, 1), q(-1, 2), q(5, 1), q(-7, 1), q(4, 1), q(-3, 2), q(2, 1)],
        vec![q(3, 2), q(-5, 1), q(2, 1), q(-1, 3), q(6, 1), q(-4, 1), q(7, 1), q(-1, 1)],
        vec![q(0, 1), q(1, 1), q(-1, 1), q(2, 1), q(0, 1), q(1, 1), q(3, 1), q(0, 1)],
        vec![q(1, 1), q(2, 1), q(0, 1), q(0, 1), q(3, 1), q(-1, 1), q(0, 1), q(1, 2)],
    ]
}
fn show(v: &Val) -> String {
    match v { Val::Ex(r) => format!("{}", r), Val::Ball(m, _) => format!("{:e}", m), Val::Und => "undefined".into(), Val::Unk => "?".into() }
}
fn show_env(env: &Env) -> String { NAMES.iter().zip(env).map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join(" ") }

/// value of one operation against the value of its operands; `dom` decides whether the assignment counts
fn value(t: &T, want_wf: bool) -> R {
    let T::N(o, ks) = t else { return Ok(false) };
    let xs: Vec<Expression> = ks.iter().map(build).collect();
    if xs.iter().any(|x| size(x) > 400 || !all_finite(x)) { return Ok(false); }
    if want_wf && xs.iter().any(|x| wf(x).is_err()) { return Ok(false); }
    let (oo, unary) = (*o, xs.len() == 1);
    let k = oo.trim_end_matches(|c: char| c.is_ascii_digit());
    let all: Vec<Env> = envs();
    let mut todo = vec![];
    for env in all {
        if !xs.iter().all(|x| good(x, &env)) { continue; }
        let vs: Vec<Val> = xs.iter().map(|x| eval(x, &env)).collect();
        let want = match k {
            "add" => sum(&vs),
            "mul" => prod(&vs),
            "sub" => sum(&[vs[0].clone(), neg(&vs[1])]),
            "neg" | "negr" => neg(&vs[0]),
            "div" => { if nonzero(&vs[1]) != Some(true) { continue; } prod(&[vs[0].clone(), inv(&vs[1])]) }
            "pow" => { if !pdom(&xs[0], &xs[1], &env) { continue; } pow(&vs[0], &vs[1]) }
            "log" => { if !ldom(&xs[0], &xs[1], &env) { continue; } log(&vs[0], &vs[1]) }
            _ if unary => vs[0].clone(),
            _ => return Ok(false),
        };
        if matches!(want, Val::Und | Val::Unk) { continue; }
        if let Val::Ball(m, _) = want { if m.abs() > 1e60 || m.abs() < 1e-60 { continue; } }
        todo.push((env, want));
    }
    if todo.is_empty() { return Ok(false); }
    let shown = format!("{}", T::N(o, ks.clone()));
    let r = apply(o, xs);
    if !all_finite(&r) { return Ok(false); }
    let mut any = false;
    for (env, want) in todo {
        let got = eval(&r, &env);
        match same(&want, &got) {
            Some(false) => return Err(format!("{} gave {} whose value at {} is {}, expected {}", shown, r, show_env(&env), show(&got), show(&want))),
            Some(true) => any = true,
            None => {}
        }
    }
    Ok(any)
}

fn comparisons(t: &T) -> R {
    let ks = t.kids();
    if ks.len() != 2 { return Ok(false); }
    let (a, b) = (build(&ks[0]), build(&ks[1]));
    if size(&a) + size(&b) > 400 || !all_finite(&a) || !all_finite(&b) || wf(&a).is_err() || wf(&b).is_err() { return Ok(false); }
    let (c, eq, ne, gt, lt, ge, le) = (a.comparable(&b), a.equal(&b), a.not_equal(&b), a.greater(&b), a.lesser(&b), a.greater_equal(&b), a.lesser_equal(&b));
    let d = format!("a = {}, b = {}: comparable {} equal {} not_equal {} greater {} lesser {} greater_equal {} lesser_equal {}", a, b, c, eq, ne, gt, lt, ge, le);
    if c {
        if [eq, gt, lt].iter().filter(|x| **x).count() != 1 { return Err(format!("comparable, but not exactly one of equal/greater/lesser holds: {}", d)); }
        if ne == eq || ge != (gt || eq) || le != (lt || eq) { return Err(format!("inconsistent answers: {}", d)); }
    } else if eq || ne || gt || lt || ge || le { return Err(format!("not comparable, yet a comparison answers yes: {}", d)); }
    let swapped = (b.comparable(&a), b.equal(&a), b.greater(&a), b.lesser(&a));
    if !has_real(&a) && !has_real(&b) && c && swapped.0 && (swapped.1 != eq || swapped.2 != lt || swapped.3 != gt) { return Err(format!("swapping the operands contradicts: {}", d)); }
    for env in envs() {
        if !good(&a, &env) || !good(&b, &env) { continue; }
        let (va, vb) = (eval(&a, &env), eval(&b, &env));
        let diff = sum(&[va.clone(), neg(&vb)]);
        if let Some(s) = same(&va, &vb) {
            if eq && !s { return Err(format!("equal answers yes, values {} and {} at {}: {}", show(&va), show(&vb), show_env(&env), d)); }
            if matches!((&va, &vb), (Val::Ex(_), Val::Ex(_))) && s && (ne || gt || lt) { return Err(format!("values are equal ({}) at {}: {}", show(&va), show_env(&env), d)); }
            if !s {
                match positive(&diff) {
                    Some(true) if lt || le || eq => return Err(format!("first value {} is above {} at {}: {}", show(&va), show(&vb), show_env(&env), d)),
                    Some(false) if gt || ge || eq => return Err(format!("first value {} is below {} at {}: {}", show(&va), show(&vb), show_env(&env), d)),
                    _ => {}
                }
            }
        }
    }
    Ok(true)
}

fn laws(t: &T) -> R {
    let xs: Vec<Expression> = t.kids().iter().map(build).collect();
    if xs.len() != 3 || xs.iter().any(|x| has_nan(x) || size(x) > 200) { return Ok(false); }
    for a in &xs {
        if !(a == &a.clone()) || a != &a.clone() { return Err(format!("{} is not equal to itself", a)); }
        if a.cmp(&a.clone()) != Ordering::Equal { return Err(format!("{} does not compare as equal to itself", a)); }
        for b in &xs {
            let (e, o) = (a == b, a.cmp(b));
            if e == (a != b) { return Err(format!("== and != agree on {} and {}", a, b)); }
            if e != (b == a) { return Err(format!("equality is not symmetric on {} and {}", a, b)); }
            if o != b.cmp(a).reverse() { return Err(format!("ordering is not antisymmetric on {} and {}", a, b)); }
            if e != (o == Ordering::Equal) { return Err(format!("{} and {}: equal is {} but the ordering says {:?}", a, b, e, o)); }
            if a.partial_cmp(b) != Some(o) { return Err(format!("partial ordering disagrees with the ordering on {} and {}", a, b)); }
            if e != ident(a, b) { return Err(format!("{} and {}: equal answers {}", a, b, e)); }
            for c in &xs {
                if e && (b == c) && !(a == c) { return Err(format!("equality is not transitive on {}, {}, {}", a, b, c)); }
                if o != Ordering::Greater && b.cmp(c) != Ordering::Greater && a.cmp(c) == Ordering::Greater { return Err(format!("ordering is not transitive on {}, {}, {}", a, b, c)); }
            }
        }
    }
    macro_rules! sym { ($v:ident) => {
        for a in &xs { for b in &xs { if let (Expression::$v(x), Expression::$v(y)) = (a, b) {
            if (x == y) != (x.cmp(y) == Ordering::Equal) || x.partial_cmp(y) != Some(x.cmp(y)) || (x == y) != (x.data == y.data) { return Err(format!("symbol equality and ordering disagree on {} and {}", a, b)); }
            let w = x.data.partial_cmp(&y.data); if w.is_some() && w != Some(x.cmp(y)) { return Err(format!("symbol ordering is wrong on {} and {}", a, b)); }
        } } }
    } }
    sym!(Real); sym!(Integer); sym!(Variable);
    Ok(true)
}

fn hashes(t: &T) -> R {
    let xs: Vec<Expression> = t.kids().iter().map(build).collect();
    let mut any = false;
    for a in &xs {
        if has_nan(a) { continue; }
        if trace(a) != trace(&a.clone()) { return Err(format!("a copy of {} hashes differently", a)); }
        for b in &xs {
            if a == b {
                any = true;
                if trace(a) != trace(b) { return Err(format!("{} and {} are equal but hash differently", a, b)); }
            }
        }
    }
    Ok(any)
}

pub fn shuffle<X>(v: &mut Vec<X>, r: &mut Rng) { for i in (1..v.len()).rev() { v.swap(i, r.below(i + 1)); } }

fn regroup(o: &'static str, xs: &[Expression], r: &mut Rng) -> Expression {
    if xs.len() <= 1 || r.chance(25) { return apply(o, xs.to_vec()); }
    let n = 1 + r.below(xs.len() - 1);
    let (a, b) = (regroup(o, &xs[..n], r), regroup(o, &xs[n..], r));
    match (o, r.below(5)) { ("add", 0) => a + b, ("add", 1) => &a + &b, ("add", 2) => &a + b, ("mul", 0) => a * b, ("mul", 1) => &a * &b, ("mul", 2) => a * &b, _ => apply(o, vec![a, b]) }
}
fn orderless(t: &T) -> R {
    let xs: Vec<Expression> = t.kids().iter().map(build).collect();
    if xs.is_empty() || xs.iter().any(|x| has_real(x) || size(x) > 200 || wf(x).is_err()) { return Ok(false); }
    let mut r = Rng(xs.len() as u64 * 77 + size(&xs[0]) as u64);
    for o in ["add", "mul"] {
        let base = apply(o, xs.clone());
        for _ in 0..4 {
            let mut ys = xs.clone();
            shuffle(&mut ys, &mut r);
            let p = apply(o, ys.clone());
            if p != base || !ident(&p, &base) { return Err(format!("order of operands matters to {}: {} and {}", o, base, p)); }
            let g = regroup(o, &ys, &mut r);
            if g != base || !ident(&g, &base) { return Err(format!("grouping of operands matters to {}: {} and {}", o, base, g)); }
        }
    }
    Ok(xs.len() > 1)
}

fn canonical(t: &T) -> R {
    let T::N(o, ks) = t else { return Ok(false) };
    let xs: Vec<Expression> = ks.iter().map(build).collect();
    if xs.iter().any(|x| size(x) > 400 || wf(x).is_err() || !all_finite(x)) { return Ok(false); }
    let d = format!("{}({})", o, xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    let r = apply(o, xs);
    if !all_finite(&r) { return Ok(false); }
    match wf(&r) { Ok(()) => Ok(true), Err(m) => Err(format!("{} gave {}: {}", d, r, m)) }
}

fn exact(t: &T) -> R {
    let T::N(o, ks) = t else { return Ok(false) };
    if *o == "list" {
        let (Some(T::I(a)), Some(T::I(b))) = (ks.first(), ks.get(1)) else { return Ok(false) };
        let (x, y) = (int(a), int(b));
        let ck = |n: &str, got: BigInt, want: BigInt| if got == want { Ok(()) } else { Err(format!("integer {} of {} and {} gave {}, expected {}", n, a, b, got, want)) };
        ck("sum", (x.clone() + y.clone()).data, a + b)?; ck("sum", (&x + &y).data, a + b)?; ck("sum", (x.clone() + &y).data, a + b)?; ck("sum", (&x + y.clone()).data, a + b)?;
        ck("difference", (x.clone() - y.clone()).data, a - b)?; ck("difference", (&x - &y).data, a - b)?; ck("difference", (x.clone() - &y).data, a - b)?; ck("difference", (&x - y.clone()).data, a - b)?;
        ck("product", (x.clone() * y.clone()).data, a * b)?; ck("product", (&x * &y).data, a * b)?; ck("product", (x.clone() * &y).data, a * b)?; ck("product", (&x * y.clone()).data, a * b)?;
        if !b.is_zero() {
            ck("quotient", (x.clone() / y.clone()).data, a / b)?; ck("quotient", (&x / &y).data, a / b)?; ck("quotient", (x.clone() / &y).data, a / b)?; ck("quotient", (&x / y.clone()).data, a / b)?;
            ck("remainder", (x.clone() % y.clone()).data, a % b)?; ck("remainder", (&x % &y).data, a % b)?; ck("remainder", (x.clone() % &y).data, a % b)?; ck("remainder", (&x % y.clone()).data, a % b)?;
        }
        ck("gcd", Symbol::gcd(&x, &y).data, num::integer::gcd(a.clone(), b.clone()))?;
        ck("lcm", Symbol::lcm(&x, &y).data, num::integer::lcm(a.clone(), b.clone()))?;
        ck("opposite", x.opposite().data, -a)?;
        if x.is_negative() != a.is_negative() { return Err(format!("sign of {}", a)); }
        if x.value() != a.to_isize() { return Err(format!("machine value of {}", a)); }
        if let Some(n) = a.to_isize() { ck("from machine integer", Symbol::integer(n).data, a.clone())?; }
        if b.bits() < 7 {
            match x.pow(&y) { Some(p) => { if b.is_negative() { return Err(format!("{} to {} is an integer", a, b)); } ck("power", p.data, Pow::pow(a.clone(), b.to_u32().unwrap()))? } None => if !b.is_negative() { return Err(format!("no power of {} to {}", a, b)); } }
        }
        if ks.len() == 4 {
            let (T::I(c), T::I(d)) = (&ks[2], &ks[3]) else { return Ok(false) };
            if b.is_zero() || d.is_zero() { return Ok(true); }
            let (p, q) = (Rational::from(int(a), int(b)), Rational::from(int(c), int(d)));
            let (rp, rq) = (BigRational::new(a.clone(), b.clone()), BigRational::new(c.clone(), d.clone()));
            let ck = |n: &str, got: Rational, want: BigRational| {
                let e = got.clone().expr();
                let v = match eval(&e, &vec![]) { Val::Ex(v) => v, _ => return Err(format!("fraction {}: {} has no exact value", n, e)) };
                if v != want { return Err(format!("fraction {} of {}/{} and {}/{} gave {}, expected {}", n, a, b, c, d, e, want)); }
                lowest(&e, &want).map_err(|m| format!("fraction {} of {}/{} and {}/{}: {}", n, a, b, c, d, m))
            };
            ck("constructor", p.clone(), rp.clone())?;
            ck("sum", p.clone() + q.clone(), &rp + &rq)?;
            ck("difference", p.clone() - q.clone(), &rp - &rq)?;
            ck("product", p.clone() * q.clone(), &rp * &rq)?;
            if !rq.is_zero() { ck("quotient", p.clone() / q.clone(), &rp / &rq)?; }
            if (p == q) != (rp == rq) { return Err(format!("fractions {}/{} and {}/{} compare as {}", a, b, c, d, p == q)); }
            match Rational::from_expression(p.clone().expr()) { Some(b2) if b2 == p => {}, _ => return Err(format!("fraction {} does not survive the round trip through an expression", rp)) }
        }
        return Ok(true);
    }
    let xs: Vec<Expression> = ks.iter().map(build).collect();
    if xs.iter().any(|x| has_real(x) || size(x) > 400) { return Ok(false); }
    let d = format!("{}({})", o, xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
    let numeric = xs.iter().all(|x| matches!(x, Expression::Integer(_)));
    let vals: Vec<Val> = if numeric { xs.iter().map(|x| eval(x, &vec![])).collect() } else { vec![] };
    let r = apply(o, xs);
    if has_real(&r) { return Err(format!("{} gave {}: a real constant appeared", d, r)); }
    if numeric && matches!(*o, "add" | "mul" | "sub" | "neg") {
        let want = match *o { "add" => sum(&vals), "mul" => prod(&vals), "sub" => sum(&[vals[0].clone(), neg(&vals[1])]), _ => neg(&vals[0]) };
        if !matches!(&r, Expression::Integer(n) if matches!(&want, Val::Ex(w) if BigRational::from(n.data.clone()) == *w)) { return Err(format!("{} gave {}, expected the integer {}", d, r, show(&want))); }
    }
    if numeric && *o == "pow" {
        if let (Some(T::I(b)), Some(T::I(e))) = (ks.first(), ks.get(1)) {
            if !b.is_zero() && e.bits() < 8 {
                let w: BigInt = Pow::pow(b.clone(), e.abs().to_u32().unwrap());
                let want = if e.is_negative() { BigRational::new(BigInt::one(), w.clone()) } else { BigRational::from(w.clone()) };
                if !matches!(eval(&r, &vec![]), Val::Ex(v) if v == want) { return Err(format!("{} gave {}, expected {}", d, r, want)); }
                if !e.is_negative() && !matches!(&r, Expression::Integer(n) if n.data == w) { return Err(format!("{} gave {}, expected the integer {}", d, r, w)); }
            }
        }
    }
    if numeric && *o == "div" && nonzero(&vals[1]) == Some(true) {
        if let Val::Ex(want) = prod(&[vals[0].clone(), inv(&vals[1])]) {
            if !matches!(eval(&r, &vec![]), Val::Ex(v) if v == want) { return Err(format!("{} gave {}, expected {}", d, r, want)); }
            lowest(&r, &want).map_err(|m| format!("{} gave {}: {}", d, r, m))?;
        }
    }
    Ok(true)
}
/// a fraction as an expression, reduced
fn lowest(e: &Expression, want: &BigRational) -> Result<(), String> {
    let mut nums = vec![];
    let mut dens = vec![];
    let items = match e { Expression::Multiplication(m) => m.items(), x => vec![x.clone()] };
    for x in items {
        match x {
            Expression::Integer(n) => nums.push(n.data),
            Expression::Power(p) => match (p.argument(), p.modifier()) { (Expression::Integer(d), Expression::Integer(m)) if m.data == -BigInt::one() => dens.push(d.data), _ => return Err(format!("{} is not a fraction", e)) },
            _ => return Err(format!("{} is not a fraction", e)),
        }
    }
    if nums.len() > 1 || dens.len() > 1 { return Err(format!("{} is not a single fraction", e)); }
    let n = nums.pop().unwrap_or(BigInt::one());
    let d = dens.pop().unwrap_or(BigInt::one());
    if n.abs() != want.numer().abs() || d.abs() != want.denom().abs() { return Err(format!("{} is not in lowest terms", e)); }
    Ok(())
}

fn anything(t: &T) -> R {
    let e = build(t);
    if size(&e) > 3000 { return Ok(false); }
    let _ = e.to_string();
    let _ = trace(&e);
    let _ = e == e.clone();
    let _ = e.cmp(&e.clone());
    let xs: Vec<Expression> = t.kids().iter().map(build).collect();
    if xs.len() >= 2 && size(&xs[0]) + size(&xs[1]) < 60 {
        let (a, b) = (&xs[0], &xs[1]);
        let _ = (a.comparable(b), a.equal(b), a.not_equal(b), a.greater(b), a.lesser(b), a.greater_equal(b), a.lesser_equal(b), a == b, a.cmp(b), a.partial_cmp(b));
    }
    Ok(true)
}
fn terminates(t: &T) -> R { let e = build(t); Ok(size(&e) > 0) }

fn association(t: &T) -> R {
    let xs: Vec<Expression> = t.kids().iter().map(build).collect();
    if xs.iter().any(|x| has_nan(x) || size(x) > 200) { return Ok(false); }
    let a = CommutativeAssociation::new(xs.clone());
    let mut want = xs.clone();
    want.sort_by(refcmp);
    let show = |v: &[Expression]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ");
    let eqv = |n: &str, got: Vec<Expression>, want: Vec<Expression>| {
        if got.len() == want.len() && got.iter().zip(&want).all(|(p, q)| ident(p, q)) { Ok(()) } else { Err(format!("{} of [{}]: got [{}], expected [{}]", n, show(&xs), show(&got), show(&want))) }
    };
    eqv("operands", a.items(), want.clone())?;
    eqv("operands of a copy", a.clone().items(), want.clone())?;
    let isint = |e: &Expression| matches!(e, Expression::Integer(_));
    let isden = |e: &Expression| if let Expression::Power(p) = e { isint(&p.argument()) && isint(&p.modifier()) } else { false };
    let israt = |e: &Expression| isint(e) || isden(e) || if let Expression::Multiplication(m) = e { m.items().iter().all(|x| isint(x) || isden(x)) } else { false };
    let isreal = |e: &Expression| matches!(e, Expression::Real(_));
    let sel = |p: &dyn Fn(&Expression) -> bool| want.iter().filter(|x| p(x)).cloned().collect::<Vec<_>>();
    eqv("reals", a.get_reals(), sel(&isreal))?;
    eqv("numerators", a.get_rational_numerators(), sel(&isint))?;
    eqv("denominators", a.get_rational_denominators(), want.iter().filter_map(|x| match x { Expression::Power(p) if isden(x) => Some(p.argument()), _ => None }).collect())?;
    eqv("rationals", a.get_rationals(), sel(&israt))?;
    eqv("non rationals", a.get_non_rationals(), sel(&|x: &Expression| !israt(x)))?;
    eqv("symbolics", a.get_symbolics(), sel(&|x: &Expression| !isint(x) && !isreal(x) && !isden(x)))?;
    let preds: [(&str, &dyn Fn(&Expression) -> bool); 4] = [("everything", &|_| true), ("nothing", &|_| false), ("variables", &|x| matches!(x, Expression::Variable(_))), ("small", &|x| size(x) < 3)];
    for (n, p) in preds {
        eqv(n, a.get(p), sel(p))?;
        match (a.get_one(p), sel(p).first()) { (None, None) => {}, (Some(x), Some(y)) if ident(&x, y) => {}, _ => return Err(format!("first of {} of [{}]", n, show(&xs))) }
    }
    eqv("mapped", a.map(&|x| x.clone()), want.clone())?;
    eqv("mapped", a.map(&|x| Symbol::integer(size(x) as isize).expr()), want.iter().map(|x| Symbol::integer(size(x) as isize).expr()).collect())?;
    use ncas::base::{associative_operation::AssociativeOperation, operation::Operation};
    if xs.len() >= 2 {
        let o = AssociativeOperation::new(xs[0].clone(), xs[1].clone());
        if !ident(&o.argument(), &xs[0]) || !ident(&o.modifier(), &xs[1]) { return Err(format!("operands of a binary node of {} and {}", xs[0], xs[1])); }
        if !ident(&Operation::new(xs[0].clone()).argument(), &xs[0]) { return Err(format!("operand of a unary node of {}", xs[0])); }
    }
    Ok(!xs.is_empty())
}

fn ieee(t: &T) -> R {
    let (Some(T::R(a)), Some(T::R(b))) = (t.kids().first(), t.kids().get(1)) else { return Ok(false) };
    let (a, b) = (*a, *b);
    let (x, y) = (Symbol::real(a), Symbol::real(b));
    let ck = |n: &str, got: f64, want: f64| if got.to_bits() == want.to_bits() || got.is_nan() && want.is_nan() { Ok(()) } else { Err(format!("real {} of {:?} and {:?} gave {:?}, expected {:?}", n, a, b, got, want)) };
    ck("sum", (x.clone() + y.clone()).data, a + b)?; ck("sum", (&x + &y).data, a + b)?; ck("sum", (x.clone() + &y).data, a + b)?; ck("sum", (&x + y.clone()).data, a + b)?;
    ck("difference", (x.clone() - y.clone()).data, a - b)?; ck("difference", (&x - &y).data, a - b)?; ck("difference", (x.clone() - &y).data, a - b)?; ck("difference", (&x - y.clone()).data, a - b)?;
    ck("product", (x.clone() * y.clone()).data, a * b)?; ck("product", (&x * &y).data, a * b)?; ck("product", (x.clone() * &y).data, a * b)?; ck("product", (&x * y.clone()).data, a * b)?;
    ck("quotient", (x.clone() / y.clone()).data, a / b)?; ck("quotient", (&x / &y).data, a / b)?; ck("quotient", (x.clone() / &y).data, a / b)?; ck("quotient", (&x / y.clone()).data, a / b)?;
    if x.value().map(|v| v.to_bits()) != Some(a.to_bits()) { return Err(format!("value of {:?}", a)); }
    if (x == y) != (a == b) { return Err(format!("equality of {:?} and {:?}", a, b)); }
    if x.partial_cmp(&y) != a.partial_cmp(&b) { return Err(format!("partial ordering of {:?} and {:?} is {:?}", a, b, x.partial_cmp(&y))); }
    if (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) { return Err(format!("order operators on {:?} and {:?}", a, b)); }
    if let Some(o) = a.partial_cmp(&b) { if x.cmp(&y) != o { return Err(format!("ordering of {:?} and {:?} is {:?}", a, b, x.cmp(&y))); } }
    if a == b && trace(&x) != trace(&y) { return Err(format!("{:?} and {:?} are equal but hash differently", a, b)); }
    Ok(true)
}

fn distributes(t: &T) -> R {
    let e = build(t);
    if !polynomial(&e) || size(&e) > 60 { return Ok(false); }
    let s = e.to_string();
    let r = e.expand();
    distributed(&r).map_err(|m| format!("{} expands to {}: {}", s, r, m))?;
    Ok(true)
}
fn renders(t: &T) -> R {
    let e = build(t);
    if has_nan(&e) { return Ok(false); }
    if e.to_string() != render(&e) { return Err(format!("rendered as {}, expected {}", e, render(&e))); }
    let c = e.clone();
    if c == e && c.to_string() != e.to_string() { return Err(format!("a copy of {} is rendered as {}", e, c)); }
    Ok(true)
}

pub fn check(prop: &str, t: &T) -> R {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => value(t, false),
        "C07" | "C17" => value(t, true),
        "C08" => comparisons(t),
        "C09" => laws(t),
        "C10" => hashes(t),
        "C11" => orderless(t),
        "C12" => canonical(t),
        "C13" => exact(t),
        "C14" => anything(t),
        "C15" => terminates(t),
        "C16" => association(t),
        "C18" => ieee(t),
        "C19" => distributes(t),
        "C20" => renders(t),
        _ => panic!("unknown property"),
    }
}

const BIN: F = FULL;
fn roots(prop: &str) -> (&'static [&'static str], usize, F) {
    let f = FULL;
    match prop {
        "C01" => (&["add", "sub", "neg", "negr", "add0", "add1", "add2", "add3", "sub0", "sub1", "sub2", "sub3"], 2, F { raw: true, bigs: true, ..f }),
        "C02" => (&["mul", "mul", "mul0", "mul1", "mul2", "mul3"], 2, F { raw: true, ..f }),
        "C03" => (&["div", "div", "div0", "div1", "div2", "div3"], 2, f),
        "C04" => (&["pow"], 2, f),
        "C05" => (&["log"], 2, F { bigs: true, ..f }),
        "C06" => (&["expand", "expand", "md", "pda"], 1, f),
        "C07" => (&["simplify", "simplify", "simplify", "aca", "mcf", "ra", "rm"], 1, f),
        "C17" => (&["ipl", "sad", "pdm"], 1, f),
        _ => (&[], 0, BIN),
    }
}

/// small exhaustive part: case number i, None when exhausted
pub fn small(prop: &str, i: usize, d: &Dict) -> Option<T> { small1(prop, i, d).map(|t| if too_big(&t) { T::i(0) } else { t }) }
fn small1(prop: &str, i: usize, d: &Dict) -> Option<T> {
    let (ops, ar, f) = roots(prop);
    let pair = |f: F, i: usize, o: &'static str| { let a = atoms(d, f); let n = a.len(); if i >= n * n { None } else { Some(T::n(o, vec![a[i / n].clone(), a[i % n].clone()])) } };
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" => { let k = ops.len(); let _ = ar; let t = pair(f, i / k, ops[i % k])?; Some(fix(t)) }
        "C06" | "C07" | "C17" => {
            // one operation over every pair of atoms joined by each constructor
            let cons = ["mul", "add", "pow", "div", "sub", "log"];
            let k = cons.len() * ops.len();
            let t = pair(f, i / k, cons[(i / ops.len()) % cons.len()])?;
            Some(T::n(ops[i % ops.len()], vec![t]))
        }
        "C08" | "C10" => pair(f0(prop), i, "list"),
        "C11" => { let t = pair(F { reals: false, ..FULL }, i, "list")?; let mut k = t.kids().to_vec(); k.push(T::V(0)); k.push(T::i(-2)); Some(T::n("list", k)) }
        "C12" | "C14" | "C15" => {
            let cons = ["add", "mul", "pow", "div", "sub", "log"];
            let t = pair(f0(prop), i / cons.len(), cons[i % cons.len()])?;
            if too_big(&t) { Some(T::i(0)) } else { Some(t) }
        }
        "C13" => {
            let cons = ["add", "mul", "pow", "div", "sub", "log", "list"];
            let t = pair(F { reals: false, bigs: true, ..FULL }, i / cons.len(), cons[i % cons.len()])?;
            if too_big(&t) { Some(T::i(0)) } else { Some(t) }
        }
        "C18" => {
            let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, 0.1, 0.3, 1e16, 1.0 + f64::EPSILON, f64::NAN];
            for r in &d.reals { v.push(*r); v.push(-*r); }
            for k in &d.ints { v.push(*k as f64); }
            let n = v.len();
            if i >= n * n { None } else { Some(T::n("list", vec![T::R(v[i / n]), T::R(v[i % n])])) }
        }
        "C19" => { let cons = ["mul", "add"]; let t = pair(F { reals: false, logs: false, trig: false, ..FULL }, i / 2, cons[i % 2])?; Some(T::n("pow", vec![t, T::i(2)])) }
        "C09" | "C16" | "C20" => { let t = pair(f0(prop), i, "list")?; let mut k = t.kids().to_vec(); if prop == "C20" { return Some(T::n("add", k)); } k.push(T::n("mul", vec![T::i(2), T::V(1)])); Some(T::n("list", k)) }
        _ => None,
    }
}
fn f0(prop: &str) -> F { F { bigs: matches!(prop, "C14" | "C09" | "C10"), ..FULL } }
/// rough upper bounds of a recipe: the largest magnitude of its constants part, and the number of terms once expanded
fn mag(t: &T) -> f64 {
    let m = |k: &[T]| k.iter().map(mag).fold(1.0, f64::max);
    match t {
        T::V(_) => 1.0,
        T::I(n) => n.to_f64().unwrap_or(f64::INFINITY).abs().max(1.0),
        T::R(r) => if *r == 0.0 || !r.is_finite() { 1.0 } else { r.abs().max(1.0 / r.abs()) },
        T::N(o, k) => match o.trim_end_matches(|c: char| c.is_ascii_digit()) {
            "add" | "sub" | "rawadd" => k.iter().map(mag).sum::<f64>().max(1.0),
            "mul" | "div" | "rawmul" => k.iter().map(mag).product::<f64>(),
            "pow" | "rawpow" => mag(&k[0]).powf(mag(&k[1])) * m(k),
            "log" | "rawlog" => m(k),
            _ => m(k),
        },
    }
}
fn terms(t: &T) -> f64 {
    match t {
        T::N(o, k) => match o.trim_end_matches(|c: char| c.is_ascii_digit()) {
            "add" | "sub" | "rawadd" => k.iter().map(terms).sum::<f64>().max(1.0),
            "mul" | "rawmul" => k.iter().map(terms).product::<f64>(),
            "pow" | "rawpow" => { let b = terms(&k[0]); let e = mag(&k[1]); (if b > 1.0 { b.powf(e) } else { 1.0 }) * terms(&k[1]) }
            "div" => terms(&k[0]) * terms(&k[1]),
            _ => k.iter().map(terms).fold(1.0, f64::max),
        },
        _ => 1.0,
    }
}
/// too large to be worth writing out
fn too_big(t: &T) -> bool { heavy(t) || terms(t) > 200.0 }
fn heavy(t: &T) -> bool {
    match t {
        T::N(o, k) => ((*o == "pow" || *o == "rawpow") && {
            let (b, e) = (mag(&k[0]), mag(&k[1]));
            // a symbolic power with an exponent no loop could count through stays as it is
            let vast = matches!(&k[0], T::V(_)) || matches!(&k[0], T::N("add", v) if v.len() > 1 && v[0] == T::V(0) && v[1] == T::V(1)) && matches!(&k[1], T::I(n) if n.abs() > BigInt::from(i64::MAX));
            !vast && (e > 80.0 || b.ln() * e > 400.0)
        }) || k.iter().any(heavy),
        _ => false,
    }
}
fn fix(t: T) -> T {
    match t { T::N(o, mut k) if o == "neg" || o == "negr" => { k.truncate(1); T::N(o, k) } t => t }
}

pub fn random(prop: &str, r: &mut Rng, d: &Dict) -> T {
    loop { let t = random1(prop, r, d); if !too_big(&t) { return t; } }
}
fn random1(prop: &str, r: &mut Rng, d: &Dict) -> T {
    let mut g = G { r, d };
    let (ops, _, f) = roots(prop);
    match prop {
        "C01" | "C02" => {
            let o = *g.r.pick(ops);
            let n = if o == "add" || o == "mul" { g.len() } else { 2 };
            let dep = if n > 5 { 1 } else { 2 };
            fix(T::N(o, g.list(n, dep, f)))
        }
        "C03" | "C04" | "C05" => {
            let o = *g.r.pick(ops);
            let a = if g.r.chance(30) { g.powlike(f) } else { let dp = g.r.below(3); g.expr(dp, f) };
            let b = if g.r.chance(25) { g.powlike(f) } else { let dp = g.r.below(3); g.expr(dp, f) };
            if prop == "C04" && g.r.chance(10) { return T::N(o, vec![a.clone(), T::n("log", vec![b, a])]); }
            if prop == "C04" && g.r.chance(6) { return g.int_pow(); }
            if prop == "C05" && g.r.chance(8) {
                let b = *g.r.pick(&[2.0f64, 10.0, 0.5, 3.0, 1.5, 7.25]);
                let k = g.r.below(9) as i32 - 4;
                let x = b.powi(k) * (1.0 + *g.r.pick(&[0.0, 1.0, -1.0]) * 10f64.powi(-(4 + g.r.below(9) as i32)));
                return T::N(o, vec![T::R(x), T::R(b)]);
            }
            if prop == "C05" && g.r.chance(25) { return T::N(o, vec![T::n("pow", vec![a.clone(), b]), a]); }
            if prop == "C05" && g.r.chance(40) {
                let k = 2 + g.r.below(12) as i64; let e = g.r.below(70) as u32; let o3 = g.r.below(3) as i64 - 1;
                return T::N(o, vec![T::I(BigInt::from(k).pow(e) + o3), T::i(k)]);
            }
            T::N(o, vec![a, b])
        }
        "C06" | "C07" | "C17" => {
            let o = *g.r.pick(ops);
            let t = match g.r.below(10) {
                0..=2 => { let n = 2 + g.r.below(5); let mut v: Vec<T> = (0..n).map(|_| if g.r.chance(60) { g.powlike(f) } else { g.expr(1, f) }).collect(); if g.r.chance(60) { let x = g.r.pick(&v).clone(); v.push(x); } T::n("mul", v) }
                3..=4 => { let n = 2 + g.len(); T::n("add", g.list(n, 1, f)) }
                5 => { let n = 2 + g.r.below(3); let v: Vec<T> = (0..n).map(|_| g.frac(f)).chain([T::V(0)]).collect(); T::n(*g.r.pick(&["add", "mul"]), v) }
                6 => { let b = T::n("add", g.list(2, 1, f)); let e = g.small_exp(); T::n("pow", vec![b, e]) }
                7 => { let b = T::n("add", g.list(2, 1, f)); let e = T::n("mul", vec![g.small_exp(), T::V(1)]); T::n("pow", vec![b, e]) }
                8 if prop == "C17" => { let a = g.expr(1, f); let b = g.expr(1, f); T::n("rawpow", vec![a.clone(), T::n("rawlog", vec![b, a])]) }
                9 if prop == "C17" => { let a = g.expr(1, f); let b = g.expr(1, f); T::n("rawlog", vec![T::n("rawpow", vec![a.clone(), b]), a]) }
                _ => { let dp = 2 + g.r.below(2); g.expr(dp, f) }
            };
            T::N(o, vec![t])
        }
        "C08" => {
            let f = FULL;
            if g.r.chance(8) {
                let (x, y) = (if g.r.chance(30) { g.int(f) } else { g.real(f) }, if g.r.chance(50) { T::i(0) } else { g.real(f) });
                return T::n("list", if g.r.chance(50) { vec![x, y] } else { vec![y, x] });
            }
            let a = g.expr(2, f);
            let b = match g.r.below(5) { 0 => g.expr(2, f), 1 => T::n("add", vec![a.clone(), g.int(f)]), 2 => T::n("sub", vec![a.clone(), g.frac(f)]), 3 => a.clone(), _ => T::n("add", vec![a.clone(), g.leaf(f)]) };
            T::n("list", if g.r.chance(50) { vec![a, b] } else { vec![b, a] })
        }
        "C09" | "C10" => {
            let f = F { raw: true, bigs: true, special: true, ..FULL };
            let a = g.expr(3, f);
            let b = tweak(&mut g, &a, f);
            let c = if g.r.chance(50) { tweak(&mut g, &b, f) } else { g.expr(3, f) };
            T::n("list", vec![a, b, c])
        }
        "C11" => { let f = F { reals: false, ..FULL }; let n = g.len().max(2); let dep = if n > 4 { 1 } else { 2 }; T::n("list", g.list(n, dep, f)) }
        "C12" => {
            let f = F { xform: true, ..FULL };
            if g.r.chance(4) {
                // constants of any size, their products and powers too small or too large for the machine
                let o = *g.r.pick(&["mul", "mul", "add", "div", "sub", "pow"]);
                let n = if o == "mul" || o == "add" { 2 + g.r.below(3) } else { 2 };
                let mut v: Vec<T> = vec![];
                for _ in 0..n { let x = *g.r.pick(&[1.0, -1.0, 2.0, -3.5]) * 10f64.powi(g.r.below(600) as i32 - 310); v.push(if g.r.chance(40) { T::n("mul", vec![T::V(g.r.below(3)), T::R(x)]) } else if g.r.chance(15) { g.int(f) } else { T::R(x) }); }
                if o == "mul" || o == "add" { v.push(T::V(0)); }
                return T::N(o, v);
            }
            let o = *g.r.pick(&["add", "mul", "sub", "div", "pow", "log", "expand", "simplify", "neg", "md", "pda", "pdm", "ipl", "sad", "aca", "mcf", "ra", "rm"]);
            let n = match o { "add" | "mul" => g.len(), "sub" | "div" | "pow" | "log" => 2, _ => 1 };
            let v = (0..n).map(|_| if g.r.chance(30) { g.powlike(f) } else { g.expr(if n > 4 { 1 } else { 2 }, f) }).collect();
            T::N(o, v)
        }
        "C13" => {
            let f = F { reals: false, bigs: true, xform: true, ..FULL };
            if g.r.chance(8) { return g.int_pow(); }
            match g.r.below(10) {
                0..=3 => { let mut v = vec![]; for _ in 0..4 { v.push(if g.r.chance(30) { T::I(g.big()) } else { g.int(f) }); } T::n("list", v) }
                4 => { let o = *g.r.pick(&["add", "mul"]); let n = g.len(); let v = (0..n).map(|_| g.int(f)).collect(); T::N(o, v) }
                5 => { let (a, b) = (g.int(f), g.int(f)); T::n(*g.r.pick(&["div", "sub"]), vec![a, b]) }
                _ => { let o = *g.r.pick(&["add", "mul", "sub", "div", "pow", "log", "expand", "simplify", "ra", "rm", "aca", "mcf"]); let n = match o { "add" | "mul" => g.len(), "sub" | "div" | "pow" | "log" => 2, _ => 1 }; T::N(o, g.list(n, 2, f)) }
            }
        }
        "C14" | "C15" => {
            let f = F { raw: prop == "C14", bigs: true, xform: true, special: prop == "C14", ..FULL };
            let o = *g.r.pick(&["add", "mul", "sub", "div", "pow", "log", "expand", "simplify", "md", "pda", "pdm", "ipl", "sad", "aca", "mcf", "ra", "rm", "rawadd", "rawmul"]);
            if prop == "C15" && (o == "simplify" || o.starts_with("raw")) { return random1(prop, g.r, d); }
            let f = if prop == "C15" { F { xform: false, ..f } } else { f };
            let n = match o { "add" | "mul" | "rawadd" | "rawmul" => g.len(), "sub" | "div" | "pow" | "log" => 2, _ => 1 };
            let v = (0..n).map(|_| if g.r.chance(30) { g.powlike(f) } else { g.expr(if n > 4 { 1 } else { 2 }, f) }).collect();
            T::N(o, v)
        }
        "C16" => { let f = F { raw: true, bigs: true, ..FULL }; let n = g.len() + g.r.below(4); let v = (0..n).map(|_| match g.r.below(4) { 0 => g.frac(f), 1 => g.powlike(F { bigs: false, ..f }), 2 => g.leaf(f), _ => g.expr(2, f) }).collect(); T::n("list", v) }
        "C18" => { let mut x = || { if g.r.chance(60) { T::R(f64::from_bits(g.r.next())) } else { let f = F { special: true, ..FULL }; g.real(f) } }; let a = x(); let b = if x().size() == 1 && matches!(a, T::R(_)) { x() } else { x() }; T::n("list", if g.r.chance(10) { vec![a.clone(), a] } else { vec![a, b] }) }
        "C19" => { let f = F { reals: false, logs: false, trig: false, poly: true, ..FULL }; g.expr(3, f) }
        "C20" => { let f = F { raw: true, bigs: true, special: true, ..FULL }; g.expr(3, f) }
        _ => T::i(0),
    }
}
/// an expression equal, or nearly equal, to another
fn tweak(g: &mut G, t: &T, f: F) -> T {
    match t {
        T::N(o, k) if !k.is_empty() => {
            let mut k = k.clone();
            if matches!(*o, "add" | "mul" | "rawadd" | "rawmul") { shuffle(&mut k, g.r); }
            if g.r.chance(60) { let i = g.r.below(k.len()); k[i] = tweak(g, &k[i].clone(), f); }
            let o2 = if g.r.chance(8) { match *o { "rawadd" => "rawmul", "add" => "mul", "mul" => "add", "pow" => "log", "sin" => "cos", "cos" => "sin", o => o } } else { o };
            T::N(o2, k)
        }
        T::R(r) if g.r.chance(50) => T::R(if *r == 0.0 { -*r } else { *r }),
        t => if g.r.chance(70) { t.clone() } else { g.leaf(f) },
    }
}
