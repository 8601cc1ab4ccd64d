// ===================== laws of real powers and logarithms (trusted; they define what "power" and "logarithm" mean here) =====================
/// a power of a positive number is positive, and its size is the exponent times the size
#[verifier::external_body] pub proof fn axiom_rpow_pos(b: real, m: real) ensures b > 0real ==> rpow(b, m) > 0real && lg(rpow(b, m)) == rm(m, lg(b)) {}
/// integer powers of any number but zero; positive integer powers of zero
#[verifier::external_body] pub proof fn axiom_rpow_int(b: real, n: int) ensures b != 0real ==> rpow(b, ir(n)) != 0real && lg(rpow(b, ir(n))) == rm(ir(n), lg(b)) && ((rpow(b, ir(n)) < 0real) == (b < 0real && n % 2 != 0)), b == 0real && n > 0 ==> rpow(b, ir(n)) == 0real {}
/// the logarithm is the exponent that gives the argument
#[verifier::external_body] pub proof fn axiom_rlog(a: real, b: real) ensures a > 0real && b > 0real && b != 1real ==> rm(rlog(a, b), lg(b)) == lg(a) {}
/// the greatest common divisor divides both, and is zero only for two zeros
#[verifier::external_body] pub broadcast proof fn axiom_gcd(a: int, b: int) ensures #![trigger gcdi(a, b)] a != 0 || b != 0 ==> gcdi(a, b) > 0, a == gcdi(a, b) * gcdq(a, b).0, b == gcdi(a, b) * gcdq(a, b).1 {}
/// the two cofactors
pub uninterp spec fn gcdq(a: int, b: int) -> (int, int);
