//! Independent oracles: mathematical value, domain, canonical form, structural identity.
use crate::term::NAMES;
use ncas::base::expression::Expression;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub enum Val {
    /// exact
    Ex(BigRational),
    /// middle, radius
    Ball(f64, f64),
    /// mathematically undefined
    Und,
    /// the oracle cannot tell (overflow, too little precision)
    Unk,
}
use Val::*;
pub type Env = Vec<BigRational>;

const EPS: f64 = 4e-16;
pub fn q(n: i64, d: i64) -> BigRational {
    BigRational::new(BigInt::from(n), BigInt::from(d))
}
fn f(r: &BigRational) -> Option<f64> {
    let (n, d) = (r.numer().to_f64()?, r.denom().to_f64()?);
    if n.is_finite() && d.is_finite() && d < 1e300 { Some(n / d) } else { None }
}
pub fn ball(v: &Val) -> Option<(f64, f64)> {
    match v {
        Ex(r) => f(r).map(|m| (m, m.abs() * EPS)),
        Ball(m, r) => Some((*m, *r)),
        _ => None,
    }
}
fn mk(m: f64, r: f64) -> Val {
    if !m.is_finite() || !r.is_finite() || m.abs() > 1e200 || (m != 0.0 && m.abs() < 1e-200) {
        return Unk;
    }
    // too small for a double to hold to the precision claimed
    if m.abs() < 1e-200 && r < 1e-100 { return Unk; }
    Ball(m, r + m.abs() * EPS)
}
pub fn sum(vs: &[Val]) -> Val {
    if vs.iter().any(|v| matches!(v, Und)) { return Und; }
    if vs.iter().all(|v| matches!(v, Ex(_))) {
        return Ex(vs.iter().fold(BigRational::zero(), |a, v| if let Ex(r) = v { a + r } else { a }));
    }
    let (mut m, mut r, mut g) = (0.0, 0.0, 0.0);
    for v in vs {
        match ball(v) {
            Some((a, b)) => { m += a; r += b; g += a.abs(); }
            None => return Unk,
        }
    }
    mk(m, r + g * EPS * 2.0 * (vs.len() as f64 + 1.0))
}
pub fn prod(vs: &[Val]) -> Val {
    if vs.iter().any(|v| matches!(v, Und)) { return Und; }
    if vs.iter().any(|v| matches!(v, Ex(r) if r.is_zero())) { return Ex(BigRational::zero()); }
    if vs.iter().all(|v| matches!(v, Ex(_))) {
        return Ex(vs.iter().fold(BigRational::one(), |a, v| if let Ex(r) = v { a * r } else { a }));
    }
    let (mut m, mut r) = (1.0f64, 0.0f64);
    for v in vs {
        match ball(v) {
            Some((a, b)) => { r = m.abs() * b + a.abs() * r + r * b; m *= a; r += m.abs() * EPS * 2.0; }
            None => return Unk,
        }
        if !m.is_finite() || m.abs() > 1e200 || m.abs() < 1e-200 { return Unk; }
    }
    mk(m, r)
}
pub fn neg(v: &Val) -> Val {
    match v { Ex(r) => Ex(-r.clone()), Ball(m, r) => Ball(-m, *r), x => x.clone() }
}
pub fn nonzero(v: &Val) -> Option<bool> {
    match v { Ex(r) => Some(!r.is_zero()), Ball(m, r) => if m.abs() > *r { Some(true) } else { None }, _ => None }
}
pub fn positive(v: &Val) -> Option<bool> {
    match v {
        Ex(r) => Some(r.is_positive()),
        Ball(m, r) => if *m > *r { Some(true) } else if *m < -*r { Some(false) } else { None },
        _ => None,
    }
}
pub fn inv(v: &Val) -> Val {
    match v {
        Ex(r) => if r.is_zero() { Und } else { Ex(r.recip()) },
        Ball(m, r) => if m.abs() > 4.0 * r { mk(1.0 / m, 2.0 * r / (m * m)) } else { Unk },
        x => x.clone(),
    }
}
fn ipow(r: &BigRational, n: i64) -> BigRational {
    let k = n.unsigned_abs() as usize;
    let (p, q) = (num::pow(r.numer().clone(), k), num::pow(r.denom().clone(), k));
    let a = BigRational::new_raw(p, q);
    if n < 0 { a.recip() } else { a }
}
pub fn pow(b: &Val, m: &Val) -> Val {
    if matches!(b, Und) || matches!(m, Und) { return Und; }
    if let Ex(n) = m {
        if n.is_integer() {
            let n = match n.to_integer().to_i64() { Some(n) if n.abs() <= 400 => n, _ => {
                if let Ex(r) = b {
                    if r.is_one() { return Ex(BigRational::one()); }
                    if r.is_zero() { return if n.is_positive() { Ex(BigRational::zero()) } else { Und }; }
                    if (-r).is_one() { return Ex(if n.to_integer().is_even_() { BigRational::one() } else { -BigRational::one() }); }
                }
                return Unk } };
            match b {
                Ex(r) => {
                    if r.is_zero() { return if n > 0 { Ex(BigRational::zero()) } else { Und }; }
                    if (r.numer().bits() + r.denom().bits()) * (n.unsigned_abs()) > 40000 { return Unk; }
                    return Ex(ipow(r, n));
                }
                Ball(x, r) => {
                    if n == 0 { return if x.abs() > *r { Ex(BigRational::one()) } else { Unk }; }
                    if x.abs() <= 4.0 * r { return Unk; }
                    let v = x.powi(n as i32);
                    return mk(v, v.abs() * (2.0 * (n.abs() as f64) * (r / x.abs() + EPS)));
                }
                _ => return Unk,
            }
        }
    }
    let (Some((x, rx)), Some((y, ry))) = (ball(b), ball(m)) else { return Unk };
    match positive(b) { Some(true) => {}, Some(false) => return Und, None => return Unk }
    if x <= 4.0 * rx { return Unk; }
    let v = x.powf(y);
    let rel = y.abs() * rx / x * 2.0 + x.ln().abs() * ry * 2.0 + EPS * (8.0 + (y * x.ln()).abs() * 4.0);
    if rel > 0.1 { return Unk; }
    mk(v, v.abs() * rel)
}
pub fn log(a: &Val, b: &Val) -> Val {
    if matches!(a, Und) || matches!(b, Und) { return Und; }
    match (positive(a), positive(b)) { (Some(true), Some(true)) => {}, (Some(_), Some(_)) => return Und, _ => return Unk }
    let (Some((x, rx)), Some((y, ry))) = (ball(a), ball(b)) else { return Unk };
    if let Ex(r) = b { if r.is_one() { return Und; } }
    let d = y.ln();
    if x <= 4.0 * rx || y <= 4.0 * ry || d.abs() < 1e-6 { return Unk; }
    let v = x.ln() / d;
    mk(v, (rx / x + EPS) * 4.0 / d.abs() + v.abs() * (ry / y) * 4.0 / d.abs() + v.abs() * EPS * 8.0)
}
trait EvenExt { fn is_even_(&self) -> bool; }
impl EvenExt for BigInt { fn is_even_(&self) -> bool { (self % BigInt::from(2)).is_zero() } }

pub fn var_index(label: &str) -> usize { NAMES.iter().position(|n| *n == label).unwrap_or(0) }

pub fn eval(e: &Expression, env: &Env) -> Val {
    match e {
        Expression::Variable(v) => Ex(env[var_index(&v.data)].clone()),
        Expression::Integer(n) => Ex(BigRational::from(n.data.clone())),
        Expression::Real(r) => if r.data.is_finite() { if r.data == 0.0 { Ex(BigRational::zero()) } else { mk(r.data, r.data.abs() * 1e-13) } } else { Unk },
        Expression::Addition(a) => sum(&a.items().iter().map(|x| eval(x, env)).collect::<Vec<_>>()),
        Expression::Multiplication(a) => prod(&a.items().iter().map(|x| eval(x, env)).collect::<Vec<_>>()),
        Expression::Power(p) => pow(&eval(&p.argument(), env), &eval(&p.modifier(), env)),
        Expression::Logarithm(p) => log(&eval(&p.argument(), env), &eval(&p.modifier(), env)),
        Expression::Sine(p) => match ball(&eval(&p.argument(), env)) { Some((m, r)) if m.abs() < 1e3 => mk(m.sin(), r + 1e-14), _ => Unk },
        Expression::Cossine(p) => match ball(&eval(&p.argument(), env)) { Some((m, r)) if m.abs() < 1e3 => mk(m.cos(), r + 1e-14), _ => Unk },
    }
}

/// made of positive quantities throughout
pub fn spos(e: &Expression, env: &Env) -> bool {
    match e {
        Expression::Variable(v) => env[var_index(&v.data)].is_positive(),
        Expression::Integer(n) => n.data.is_positive(),
        Expression::Real(r) => r.data > 0.0,
        Expression::Addition(a) | Expression::Multiplication(a) => !a.items().is_empty() && a.items().iter().all(|x| spos(x, env)),
        Expression::Power(p) => spos(&p.argument(), env),
        _ => false,
    }
}
pub fn pdom(b: &Expression, m: &Expression, env: &Env) -> bool {
    if spos(b, env) { return true; }
    match m {
        Expression::Integer(n) => n.data.is_positive() || nonzero(&eval(b, env)) == Some(true),
        _ => false,
    }
}
pub fn ldom(a: &Expression, b: &Expression, env: &Env) -> bool {
    spos(a, env) && spos(b, env) && nonzero(&sum(&[eval(b, env), Ex(-BigRational::one())])) == Some(true)
}
/// every power and logarithm inside is in its domain
pub fn good(e: &Expression, env: &Env) -> bool {
    match e {
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().all(|x| good(x, env)),
        Expression::Power(p) => good(&p.argument(), env) && good(&p.modifier(), env) && pdom(&p.argument(), &p.modifier(), env),
        Expression::Logarithm(p) => good(&p.argument(), env) && good(&p.modifier(), env) && ldom(&p.argument(), &p.modifier(), env),
        Expression::Sine(p) | Expression::Cossine(p) => good(&p.argument(), env),
        Expression::Real(r) => r.data.is_finite(),
        _ => true,
    }
}

/// Some(true) same, Some(false) different, None cannot tell
pub fn same(a: &Val, b: &Val) -> Option<bool> {
    match (a, b) {
        (Und, Und) => Some(true),
        (Unk, _) | (_, Unk) => None,
        (Und, _) | (_, Und) => Some(false),
        (Ex(x), Ex(y)) => Some(x == y),
        _ => {
            let (Some((x, rx)), Some((y, ry))) = (ball(a), ball(b)) else { return None };
            let tol = 4.0 * (rx + ry) + 1e-290;
            if (x - y).abs() <= tol {
                if tol > 1e-3 * (x.abs() + y.abs()) + 1e-9 { None } else { Some(true) }
            } else { Some(false) }
        }
    }
}

pub fn has_real(e: &Expression) -> bool {
    match e {
        Expression::Real(_) => true,
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().any(has_real),
        Expression::Power(p) | Expression::Logarithm(p) => has_real(&p.argument()) || has_real(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => has_real(&p.argument()),
        _ => false,
    }
}
pub fn has_nan(e: &Expression) -> bool {
    match e {
        Expression::Real(r) => r.data.is_nan(),
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().any(has_nan),
        Expression::Power(p) | Expression::Logarithm(p) => has_nan(&p.argument()) || has_nan(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => has_nan(&p.argument()),
        _ => false,
    }
}
pub fn all_finite(e: &Expression) -> bool {
    match e {
        Expression::Real(r) => r.data.is_finite() && (r.data == 0.0 || r.data.abs() > 1e-150 && r.data.abs() < 1e150),
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().all(all_finite),
        Expression::Power(p) | Expression::Logarithm(p) => all_finite(&p.argument()) && all_finite(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => all_finite(&p.argument()),
        _ => true,
    }
}
pub fn size(e: &Expression) -> usize {
    match e {
        Expression::Addition(a) | Expression::Multiplication(a) => 1 + a.items().iter().map(size).sum::<usize>(),
        Expression::Power(p) | Expression::Logarithm(p) => 1 + size(&p.argument()) + size(&p.modifier()),
        Expression::Sine(p) | Expression::Cossine(p) => 1 + size(&p.argument()),
        _ => 1,
    }
}

fn rank(e: &Expression) -> usize {
    match e {
        Expression::Real(_) => 0, Expression::Integer(_) => 1, Expression::Variable(_) => 2, Expression::Power(_) => 3,
        Expression::Logarithm(_) => 4, Expression::Sine(_) => 5, Expression::Cossine(_) => 6, Expression::Multiplication(_) => 7,
        Expression::Addition(_) => 8,
    }
}
/// reference order, written from the documentation of the ordering; no not-a-number constants
pub fn refcmp(a: &Expression, b: &Expression) -> Ordering {
    match (a, b) {
        (Expression::Real(x), Expression::Real(y)) => x.data.partial_cmp(&y.data).unwrap_or(Ordering::Equal),
        (Expression::Integer(x), Expression::Integer(y)) => x.data.cmp(&y.data),
        (Expression::Variable(x), Expression::Variable(y)) => x.data.cmp(&y.data),
        (Expression::Addition(x), Expression::Addition(y)) | (Expression::Multiplication(x), Expression::Multiplication(y)) => {
            let (mut x, mut y) = (x.items(), y.items());
            x.sort_by(refcmp);
            y.sort_by(refcmp);
            x.len().cmp(&y.len()).then_with(|| {
                x.iter().zip(y.iter()).map(|(p, q)| refcmp(p, q)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal)
            })
        }
        (Expression::Power(x), Expression::Power(y)) | (Expression::Logarithm(x), Expression::Logarithm(y)) => {
            refcmp(&x.argument(), &y.argument()).then_with(|| refcmp(&x.modifier(), &y.modifier()))
        }
        (Expression::Sine(x), Expression::Sine(y)) | (Expression::Cossine(x), Expression::Cossine(y)) => refcmp(&x.argument(), &y.argument()),
        _ => rank(a).cmp(&rank(b)),
    }
}
pub fn ident(a: &Expression, b: &Expression) -> bool { refcmp(a, b) == Ordering::Equal }

fn is_int(e: &Expression) -> Option<BigInt> { if let Expression::Integer(n) = e { Some(n.data.clone()) } else { None } }
fn is_real(e: &Expression) -> Option<f64> { if let Expression::Real(n) = e { Some(n.data) } else { None } }
/// canonical form; Err says what is wrong
pub fn wf(e: &Expression) -> Result<(), String> {
    match e {
        Expression::Addition(a) => {
            let it = a.items();
            for x in &it { wf(x)?; }
            if it.len() < 2 { return Err(format!("sum of {} operands", it.len())); }
            if it.iter().any(|x| matches!(x, Expression::Addition(_))) { return Err("sum inside a sum".into()); }
            let ints: Vec<_> = it.iter().filter_map(is_int).collect();
            let reals: Vec<_> = it.iter().filter_map(is_real).collect();
            if ints.len() > 1 || reals.len() > 1 { return Err("more than one constant in a sum".into()); }
            if ints.iter().any(|n| n.is_zero()) || reals.iter().any(|r| *r == 0.0) { return Err("zero in a sum".into()); }
            Ok(())
        }
        Expression::Multiplication(a) => {
            let it = a.items();
            for x in &it { wf(x)?; }
            if it.len() < 2 { return Err(format!("product of {} operands", it.len())); }
            if it.iter().any(|x| matches!(x, Expression::Multiplication(_))) { return Err("product inside a product".into()); }
            let ints: Vec<_> = it.iter().filter_map(is_int).collect();
            let reals: Vec<_> = it.iter().filter_map(is_real).collect();
            if ints.len() > 1 || reals.len() > 1 { return Err("more than one constant in a product".into()); }
            if ints.iter().any(|n| n.is_zero() || n.is_one()) || reals.iter().any(|r| *r == 0.0 || *r == 1.0) { return Err("zero or one in a product".into()); }
            Ok(())
        }
        Expression::Power(p) => {
            let (b, m) = (p.argument(), p.modifier());
            wf(&b)?;
            wf(&m)?;
            if matches!(b, Expression::Power(_)) { return Err("power of a power".into()); }
            if is_int(&b).map_or(false, |n| n.is_zero()) || is_real(&b) == Some(0.0) { return Err("power of zero".into()); }
            if let (Some(_), Some(m)) = (is_int(&b), is_int(&m)) { if m != BigInt::from(-1) { return Err("integer power left unevaluated".into()); } }
            Ok(())
        }
        Expression::Logarithm(p) => { wf(&p.argument())?; wf(&p.modifier()) }
        Expression::Sine(p) | Expression::Cossine(p) => wf(&p.argument()),
        _ => Ok(()),
    }
}
/// variables, integers, sums, products, positive integer powers only
pub fn polynomial(e: &Expression) -> bool {
    match e {
        Expression::Variable(_) | Expression::Integer(_) => true,
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().all(polynomial),
        Expression::Power(p) => polynomial(&p.argument()) && is_int(&p.modifier()).map_or(false, |n| n.is_positive()),
        _ => false,
    }
}
pub fn distributed(e: &Expression) -> Result<(), String> {
    match e {
        Expression::Addition(a) => a.items().iter().try_for_each(distributed),
        Expression::Multiplication(a) => {
            for x in a.items().iter() {
                if matches!(x, Expression::Addition(_)) { return Err("a sum is a factor of a product".into()); }
                distributed(x)?;
            }
            Ok(())
        }
        Expression::Power(p) => {
            if matches!(p.argument(), Expression::Addition(_)) && is_int(&p.modifier()).map_or(false, |n| n > BigInt::one()) { return Err("a sum is the base of an integer power".into()); }
            distributed(&p.argument())
        }
        _ => Ok(()),
    }
}
/// reference renderer
pub fn render(e: &Expression) -> String {
    match e {
        Expression::Variable(v) => v.data.clone(),
        Expression::Integer(n) => n.data.to_string(),
        // the two zeros are equal: one text
        Expression::Real(r) => if r.data == 0.0 { "0".into() } else { r.data.to_string() },
        Expression::Power(p) => format!("pow({}, {})", render(&p.argument()), render(&p.modifier())),
        Expression::Logarithm(p) => format!("log({}, {})", render(&p.argument()), render(&p.modifier())),
        Expression::Sine(p) => format!("sin({})", render(&p.argument())),
        Expression::Cossine(p) => format!("cos({})", render(&p.argument())),
        Expression::Addition(a) => if a.items().is_empty() { String::new() } else { format!("({})", a.items().iter().map(render).collect::<Vec<_>>().join(" + ")) },
        Expression::Multiplication(a) => if a.items().is_empty() { String::new() } else { format!("({})", a.items().iter().map(render).collect::<Vec<_>>().join(" * ")) },
    }
}
#[derive(Default)]
pub struct Rec(pub Vec<u8>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b); }
}
pub fn trace<X: std::hash::Hash>(x: &X) -> Vec<u8> { let mut r = Rec::default(); x.hash(&mut r); r.0 }
