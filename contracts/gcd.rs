// ===================== greatest common divisors and lowest terms =====================
/// the two cofactors
pub uninterp spec fn gcdq(a: int, b: int) -> (int, int);
/// num's gcd divides both numbers and is positive unless both are zero; every common divisor is at most it (trusted: that is what a greatest common divisor is)
#[verifier::external_body] pub proof fn axiom_gcd(a: int, b: int) ensures a != 0 || b != 0 ==> gcdi(a, b) > 0, a == gcdi(a, b) * gcdq(a, b).0, b == gcdi(a, b) * gcdq(a, b).1 {}
#[verifier::external_body] pub proof fn axiom_gcd_greatest(a: int, b: int, d: int, u: int, v: int) ensures (a != 0 || b != 0) && a == d * u && b == d * v ==> d <= gcdi(a, b) {}
pub proof fn lem_tdiv(a: int, g: int, q: int) requires g > 0, a == g * q ensures tdiv(a, g) == q { reveal(tdiv); if a >= 0 { assert(q >= 0) by(nonlinear_arith) requires g * q >= 0, g > 0; assert(a / g == q) by(nonlinear_arith) requires a == g * q, g > 0; } else { assert(q < 0) by(nonlinear_arith) requires g * q < 0, g > 0; assert((-a) / g == -q) by(nonlinear_arith) requires a == g * q, g > 0; } }
/// only one divides both
#[verifier::opaque] pub open spec fn coprime(p: int, q: int) -> bool { forall|d: int, u: int, v: int| d > 0 && p == #[trigger] (d * u) && q == #[trigger] (d * v) ==> d == 1 }
/// p / q is a / b in lowest terms
#[verifier::opaque] pub open spec fn lowest(p: int, q: int, a: int, b: int) -> bool { q != 0 && p * b == a * q && coprime(p, q) }
pub proof fn lem_coprime(a: int, b: int) requires a != 0 || b != 0 ensures coprime(gcdq(a, b).0, gcdq(a, b).1) {
    reveal(coprime); axiom_gcd(a, b); let g = gcdi(a, b); let (p, q) = gcdq(a, b);
    assert forall|d: int, u: int, v: int| d > 0 && p == #[trigger] (d * u) && q == #[trigger] (d * v) implies d == 1 by {
        assert(a == (g * d) * u) by(nonlinear_arith) requires a == g * p, p == d * u; assert(b == (g * d) * v) by(nonlinear_arith) requires b == g * q, q == d * v;
        axiom_gcd_greatest(a, b, g * d, u, v); assert(d <= 1) by(nonlinear_arith) requires g * d <= g, g > 0, d > 0;
    }
}
/// one, or the integer one over something, or nothing over one
pub proof fn lem_coprime_one(p: int) ensures coprime(p, 1), coprime(p, -1) { reveal(coprime);
    assert forall|d: int, u: int, v: int| d > 0 && p == #[trigger] (d * u) && 1 == #[trigger] (d * v) implies d == 1 by { assert(d == 1) by(nonlinear_arith) requires d > 0, 1 == d * v; }
    assert forall|d: int, u: int, v: int| d > 0 && p == #[trigger] (d * u) && -1 == #[trigger] (d * v) implies d == 1 by { assert(d == 1) by(nonlinear_arith) requires d > 0, -1 == d * v; }
}
pub broadcast proof fn b_lowest(a: int, b: int) ensures #![trigger gcdi(a, b)] a != 0 || b != 0 ==> ({ let g = gcdi(a, b); let (p, q) = (tdiv(a, g), tdiv(b, g)); g > 0 && (b != 0 ==> lowest(p, q, a, b)) && (a != 0 ==> lowest(q, p, b, a)) && (b == g ==> q == 1) && (a == g ==> p == 1) && (a != 0 ==> p != 0) && (b != 0 ==> q != 0) && (b != g ==> q != 1) && (a != g ==> p != 1) }) {
    if a != 0 || b != 0 { axiom_gcd(a, b); let g = gcdi(a, b); let (p, q) = gcdq(a, b); lem_tdiv(a, g, p); lem_tdiv(b, g, q); lem_coprime(a, b);
        assert(p * b == a * q) by(nonlinear_arith) requires a == g * p, b == g * q; assert(b != 0 ==> q != 0) by(nonlinear_arith) requires b == g * q; assert(a != 0 ==> p != 0) by(nonlinear_arith) requires a == g * p;
        assert(coprime(q, p)) by { reveal(coprime); assert forall|d: int, u: int, v: int| d > 0 && q == #[trigger] (d * u) && p == #[trigger] (d * v) implies d == 1 by { assert(d > 0 && p == d * v && q == d * u); } }
        assert(q * a == b * p) by(nonlinear_arith) requires p * b == a * q;
        reveal(lowest); assert(b == g ==> q == 1) by(nonlinear_arith) requires b == g * q, g > 0; assert(a == g ==> p == 1) by(nonlinear_arith) requires a == g * p, g > 0;
        assert(q == 1 ==> b == g); assert(p == 1 ==> a == g);
    }
}
pub broadcast proof fn b_lowest_zero(a: int, b: int) ensures #![trigger lowest(a, 1, a, b)] a == 0 && b != 0 ==> lowest(a, 1, a, b) { reveal(lowest); lem_coprime_one(a); assert(0 * b == 0) by(nonlinear_arith); }
pub broadcast proof fn b_nonzero(a: int, b: int) ensures #![trigger big(a * b)] a != 0 && b != 0 ==> a * b != 0 { assert(a != 0 && b != 0 ==> a * b != 0) by(nonlinear_arith); }
