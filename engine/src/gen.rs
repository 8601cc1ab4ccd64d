//! Case generation: small exhaustive pairs, then random recipes; constants and list lengths are also
//! taken from the literals of the source under test.
use crate::term::{T, NAMES};
use num::bigint::BigInt;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n.max(1) as u64)) as usize }
    pub fn chance(&mut self, p: usize) -> bool { self.below(100) < p }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X { &v[self.below(v.len())] }
}

#[derive(Default, Clone)]
pub struct Dict { pub ints: Vec<i64>, pub reals: Vec<f64> }

/// literals of the source under test (test modules included: harmless)
pub fn harvest(dir: &std::path::Path, d: &mut Dict) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    ps.sort();
    for p in ps {
        if p.is_dir() { harvest(&p, d); continue; }
        if p.extension().map_or(true, |e| e != "rs") || p.to_string_lossy().ends_with("_test.rs") { continue; }
        let Ok(s) = std::fs::read_to_string(&p) else { continue };
        let s = s.split("#[cfg(test)]").next().unwrap_or("").to_string();
        let b: Vec<char> = s.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
                let st = i;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_' || (b[i] == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) || (b[i] == 'e' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) { i += 1; }
                let t: String = b[st..i].iter().filter(|c| **c != '_').collect();
                if t.contains('.') || t.contains('e') {
                    if let Ok(r) = t.parse::<f64>() { if !d.reals.contains(&r) { d.reals.push(r); } }
                } else if let Ok(n) = t.parse::<i64>() { if !d.ints.contains(&n) { d.ints.push(n); } }
            }
            i += 1;
        }
    }
}

#[derive(Clone, Copy)]
pub struct F { pub reals: bool, pub bigs: bool, pub raw: bool, pub logs: bool, pub trig: bool, pub xform: bool, pub poly: bool, pub special: bool }
pub const FULL: F = F { reals: true, bigs: false, raw: false, logs: true, trig: true, xform: false, poly: false, special: false };

pub struct G<'a> { pub r: &'a mut Rng, pub d: &'a Dict }
impl<'a> G<'a> {
    pub fn int(&mut self, f: F) -> T {
        let c = self.r.below(100);
        let n: BigInt = if c < 55 { BigInt::from(self.r.below(9) as i64 - 4) }
            else if c < 70 { BigInt::from(self.r.below(41) as i64 - 20) }
            else if c < 88 && !self.d.ints.is_empty() {
                let k = *self.r.pick(&self.d.ints);
                if k.abs() > 4000 && !f.bigs { BigInt::from(6) } else { let o = self.r.below(3) as i64 - 1; let n = BigInt::from(k) + o; if self.r.chance(40) { -n } else { n } }
            }
            else if c < 94 || !f.bigs { BigInt::from(self.r.below(2000) as i64 - 1000) }
            else { self.big() };
        T::I(n)
    }
    pub fn big(&mut self) -> BigInt {
        let base = match self.r.below(8) {
            0 => BigInt::from(i64::MAX), 1 => BigInt::from(i64::MIN), 2 => BigInt::from(1u64 << 53), 3 => BigInt::from(1u64 << 52),
            4 => BigInt::from(i32::MAX), 5 => BigInt::from(10).pow(30), 6 => BigInt::from(3).pow(80 + self.r.below(20) as u32),
            _ => BigInt::from(2).pow(20 + self.r.below(140) as u32),
        };
        let n = base + (self.r.below(5) as i64 - 2);
        if self.r.chance(40) { -n } else { n }
    }
    /// an integer power whose result has many digits
    pub fn int_pow(&mut self) -> T {
        let b = BigInt::from(*self.r.pick(&[2i64, -2, 3, -3, 7, 10, -10, 100, 1000, 46341, 65536, -65536, 2147483648, 3037000500])) + (if self.r.chance(20) { 1 } else { 0 });
        let e = match self.r.below(4) { 0 => self.r.below(6), 1 => self.r.below(20), 2 => self.r.below(70), _ => self.r.below(12) } as i64;
        T::n("pow", vec![T::I(b), T::i(if self.r.chance(15) { -e } else { e })])
    }
    pub fn real(&mut self, f: F) -> T {
        if f.special && self.r.chance(25) {
            return T::R(*self.r.pick(&[f64::INFINITY, f64::NEG_INFINITY, -0.0, 0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -f64::MAX]));
        }
        if !self.d.reals.is_empty() && self.r.chance(20) { let x = *self.r.pick(&self.d.reals); return T::R(if self.r.chance(40) { -x } else { x }); }
        if self.r.chance(12) { return T::R((self.r.below(100000) as f64 - 50000.0) / 997.0); }
        // very small and very large constants, and constants a hair away from round ones
        if self.r.chance(5) { let x = *self.r.pick(&[1.0, -1.0, 2.0, -3.5]); return T::R(x * 10f64.powi(self.r.below(48) as i32 - 24)); }
        if self.r.chance(4) { let x = *self.r.pick(&[1.0, -1.0, 2.0, 10.0, 1000.0, 0.5]); return T::R(x * (1.0 + *self.r.pick(&[1.0, -1.0]) * 10f64.powi(-(4 + self.r.below(10) as i32)))); }
        T::R(*self.r.pick(&[0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 2.5, -1.25, 0.0, 3.0, 4.0, -4.0, 0.25, 0.1, 10.0, 1.5]))
    }
    pub fn leaf(&mut self, f: F) -> T {
        let c = self.r.below(100);
        if c < 45 { T::V(self.r.below(if self.r.0 % 5 == 0 { NAMES.len() } else { 3 })) }
        else if c < 82 || !f.reals { self.int(f) }
        else { self.real(f) }
    }
    pub fn len(&mut self) -> usize {
        let c = self.r.below(100);
        if c < 80 { self.r.below(5) }
        else if c < 94 { 3 + self.r.below(6) }
        else if !self.d.ints.is_empty() { let k = *self.r.pick(&self.d.ints); if (0..40).contains(&k) { (k + self.r.below(3) as i64 - 1).max(0) as usize } else { 9 } }
        else { 12 }
    }
    pub fn list(&mut self, n: usize, depth: usize, f: F) -> Vec<T> {
        let mut v: Vec<T> = Vec::new();
        for _ in 0..n {
            if !v.is_empty() && self.r.chance(18) { let x = self.r.pick(&v).clone(); v.push(if self.r.chance(30) { T::n("neg", vec![x]) } else { x }); }
            else { v.push(self.expr(depth, f)); }
        }
        v
    }
    pub fn frac(&mut self, f: F) -> T {
        let (a, mut b) = (self.int(f), self.int(f));
        if b == T::i(0) { b = T::i(3); }
        T::n("div", vec![a, b])
    }
    pub fn small_exp(&mut self) -> T { T::i(*self.r.pick(&[2, 3, -1, -2, 1, 0, -3, 2, 4])) }
    pub fn expr(&mut self, depth: usize, f: F) -> T {
        if depth == 0 || self.r.chance(22) { return self.leaf(f); }
        let d = depth - 1;
        if f.poly {
            return match self.r.below(10) {
                0..=3 => { let n = 2 + self.r.below(2); T::n("add", self.list(n, d, f)) }
                4..=6 => { let n = 2 + self.r.below(2); T::n("mul", self.list(n, d, f)) }
                7 => T::n("sub", self.list(2, d, f)),
                _ => { let b = self.expr(d, f); let e = T::i(*self.r.pick(&[2, 2, 3, 1])); T::n("pow", vec![b, e]) }
            };
        }
        match self.r.below(100) {
            0..=19 => { let n = 2 + self.r.below(3); T::n("add", self.list(n, d, f)) }
            20..=41 => { let n = 2 + self.r.below(3); T::n("mul", self.list(n, d, f)) }
            42..=49 => T::n("sub", self.list(2, d, f)),
            50..=53 => { let x = self.expr(d, f); T::n("neg", vec![x]) }
            54..=58 => self.frac(f),
            59..=66 => { let a = self.expr(d, f); let b = self.expr(d, f); T::n("div", vec![a, b]) }
            67..=78 => { let a = self.expr(d, f); let b = self.small_exp(); T::n("pow", vec![a, b]) }
            79..=86 => { let fe = F { bigs: false, ..f }; let a = self.expr(d, fe); let b = self.expr(d.min(1), fe); T::n("pow", vec![a, b]) }
            87..=91 if f.logs => { let a = self.expr(d, f); let b = self.expr(d.min(1), f); T::n("log", vec![a, b]) }
            92..=93 if f.trig => { let a = self.expr(d, f); T::n(*self.r.pick(&["sin", "cos"]), vec![a]) }
            94..=96 if f.xform => { let a = self.expr(d.min(2), f); T::n(*self.r.pick(&["expand", "simplify"]), vec![a]) }
            97..=99 if f.raw => { let n = self.r.below(4); T::n(*self.r.pick(&["rawadd", "rawmul"]), self.list(n, d, f)) }
            _ => self.leaf(f),
        }
    }
    /// a b^(c) inverse pair, ready for cancellation rules
    pub fn powlike(&mut self, f: F) -> T {
        let b = self.expr(1, f);
        let e = match self.r.below(6) {
            0 => self.small_exp(),
            1 => T::n("mul", vec![T::i(-(1 + self.r.below(3) as i64)), T::V(self.r.below(3))]),
            2 => self.frac(f),
            3 => T::n("neg", vec![T::V(1)]),
            4 => T::n("mul", vec![self.small_exp(), T::V(self.r.below(3)), T::V(self.r.below(3))]),
            _ => self.expr(1, f),
        };
        T::n("pow", vec![b, e])
    }
}

pub fn atoms(d: &Dict, f: F) -> Vec<T> {
    let v = T::V;
    let i = T::i;
    let n = T::n;
    let mut a = vec![
        i(0), i(1), i(-1), i(2), i(-2), i(3), i(4), i(-6), i(12), v(0), v(1),
        n("add", vec![v(0), v(1)]), n("add", vec![v(0), i(2)]), n("add", vec![v(0), i(-3), v(2)]), n("sub", vec![v(0), v(1)]),
        n("mul", vec![v(0), v(1)]), n("mul", vec![i(2), v(0)]), n("mul", vec![i(-3), v(0), v(1)]), n("neg", vec![v(0)]), n("neg", vec![v(1)]),
        n("mul", vec![i(6), v(1)]), n("mul", vec![v(2), n("add", vec![v(0), v(1)])]),
        n("div", vec![i(1), i(2)]), n("div", vec![i(-2), i(3)]), n("div", vec![i(5), i(6)]), n("div", vec![v(0), i(2)]), n("div", vec![i(3), v(0)]),
        n("pow", vec![v(0), i(2)]), n("pow", vec![v(0), i(3)]), n("pow", vec![v(0), i(-1)]), n("pow", vec![v(0), i(-2)]), n("pow", vec![v(0), v(1)]),
        n("pow", vec![v(0), n("neg", vec![v(1)])]), n("pow", vec![v(0), n("mul", vec![i(2), v(1)])]), n("pow", vec![i(2), v(0)]),
        n("pow", vec![n("add", vec![v(0), v(1)]), i(2)]), n("pow", vec![n("add", vec![v(0), v(1)]), i(-1)]), n("pow", vec![n("add", vec![v(0), i(1)]), i(3)]),
        n("pow", vec![n("add", vec![v(0), v(1)]), n("mul", vec![i(-2), v(2)])]), n("pow", vec![n("mul", vec![v(0), v(1)]), v(2)]), n("pow", vec![n("mul", vec![v(0), v(1)]), i(-2)]),
        n("pow", vec![v(0), n("div", vec![i(1), i(2)])]), n("pow", vec![i(2), n("div", vec![i(1), i(2)])]), n("pow", vec![i(2), n("div", vec![i(-1), i(2)])]),
    ];
    if f.logs {
        a.extend([n("log", vec![v(0), v(1)]), n("log", vec![v(0), i(2)]), n("log", vec![i(3), i(2)]), n("log", vec![i(8), i(2)]), n("log", vec![n("pow", vec![v(0), v(2)]), v(1)]), n("mul", vec![i(2), n("log", vec![v(0), v(1)])])]);
    }
    if f.trig { a.push(n("sin", vec![v(0)])); a.push(n("cos", vec![n("add", vec![v(0), i(1)])])); }
    if f.reals {
        for r in [0.5, -0.5, 1.0, -1.0, 2.0, -2.0, 2.5, 0.0, 4.0] { a.push(T::R(r)); }
        a.extend([n("mul", vec![T::R(2.5), v(0)]), n("mul", vec![T::R(-0.5), v(0)]), n("mul", vec![T::R(1.5), v(0), v(1)]), n("add", vec![v(0), T::R(0.5)]), n("add", vec![v(0), T::R(-1.5), i(2)]), n("pow", vec![v(0), T::R(0.5)]), n("pow", vec![v(0), T::R(2.0)]), n("mul", vec![i(-1), T::R(2.0)])]);
        for r in &d.reals { if r.abs() < 1e6 && !a.contains(&T::R(*r)) { a.push(T::R(*r)); a.push(T::R(-*r)); } }
    }
    for k in &d.ints { for o in -1..=1 { for s in [1, -1] { let x = i((k + o) * s); if (k.abs() < 200 || f.bigs) && !a.contains(&x) { a.push(x); } } } }
    if f.bigs { for b in ["9223372036854775807", "-9223372036854775808", "-9223372036854775807", "100000000000000000000000000000", "-100000000000000000000000000007", "4503599627370495", "9007199254740993"] { a.push(T::I(b.parse().unwrap())); } }
    a
}
