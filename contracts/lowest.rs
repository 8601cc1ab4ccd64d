// ===================== fractions of integers =====================
pub open spec fn iv(e: Expression) -> int { e->Integer_0.data.g@ }
pub open spec fn reciprocal(q: int) -> Expression { Expression::Power(AssociativeOperation { argument: Box::new(lit(q)), modifier: Box::new(lit(-1)) }) }
/// the expression for p / q
pub open spec fn frac(p: int, q: int) -> Expression { if q == 1 { lit(p) } else { mk(Op::Prod, Multiset::singleton(reciprocal(q)), p) } }
#[verifier::opaque] pub open spec fn in_lowest(e: Expression, a: int, b: int) -> bool { exists|p: int, q: int| #[trigger] lowest(p, q, a, b) && e == frac(p, q) }
/// integers to the power of integers
pub open spec fn ipw(a: int, n: int) -> Expression { if a == 0 || a == 1 || n == 1 { lit(a) } else if n == 0 { lit(1) } else if n < 0 { reciprocal(ipow(a, -n)) } else { lit(ipow(a, n)) } }
pub broadcast proof fn b_in_lowest(p: int, q: int, a: int, b: int) ensures #![trigger lowest(p, q, a, b)] lowest(p, q, a, b) ==> in_lowest(frac(p, q), a, b) { reveal(in_lowest); }
pub broadcast proof fn b_lowest_unit(e: Expression, a: int, b: int) ensures #![trigger in_lowest(e, a, b)] b == 1 ==> in_lowest(lit(a), a, b), b == -1 ==> in_lowest(lit(-a), a, b), a == 0 && b != 0 ==> in_lowest(lit(0), a, b) {
    reveal(in_lowest); reveal(lowest); lem_coprime_one(a); lem_coprime_one(-a); lem_coprime_one(0); assert(0 * b == 0 && a * 1 == a) by(nonlinear_arith); assert(-a * -1 == a) by(nonlinear_arith);
    if b == 1 { assert(lowest(a, 1, a, b)); } if b == -1 { assert(lowest(-a, 1, a, b)); } if a == 0 && b != 0 { assert(lowest(0, 1, a, b)); assert(lit(0) == frac(0, 1)); }
}
pub broadcast proof fn b_frac(p: int, q: int) ensures #![trigger frac(p, q)] p == 1 && q != 1 ==> frac(p, q) == reciprocal(q), p == 0 ==> frac(p, q) == lit(0) {
    reveal(mk); let m = Multiset::singleton(reciprocal(q)); if p == 1 && q != 1 { assert(m.len() == 1); let x = m.choose(); assert(m.count(x) > 0); }
}
pub broadcast proof fn b_frac_mk(q: int, p: int) ensures #![trigger mk(Op::Prod, Multiset::singleton(reciprocal(q)), p)] q != 1 ==> mk(Op::Prod, Multiset::singleton(reciprocal(q)), p) == frac(p, q) {}
pub broadcast proof fn b_ipw(a: int, n: int) ensures #![trigger ipw(a, n)] n == -1 && a != 0 && a != 1 ==> ipw(a, n) == reciprocal(a) { reveal_with_fuel(ipow, 3); assert(a * 1 == a) by(nonlinear_arith); }
pub broadcast group g_low { b_ipw, b_frac_mk, b_lowest, b_in_lowest, b_lowest_unit, b_frac }
pub proof fn vacuity_lowest() ensures false { broadcast use {g_nf, g_nfp, g_low}; axiom_gcd(4, 6); axiom_gcd_greatest(4, 6, 2, 2, 3); axiom_gcd(0, 0); axiom_gcd_greatest(0, 5, 5, 0, 1); axiom_sorted_unique(Seq::empty(), Seq::empty()); axiom_lg(1real, 2real); }
/// integers add and multiply exactly
pub proof fn exact_integers(a: int, b: int) ensures nfr(Op::Sum, Seq::empty().push(lit(a)).push(lit(b))) == lit(a + b), nfr(Op::Prod, Seq::empty().push(lit(a)).push(lit(b))) == lit(a * b) { broadcast use g_nf; assert(big(a * b).g@ == a * b); }
