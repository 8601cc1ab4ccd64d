// ===================== what is divided by =====================
pub broadcast proof fn b_gcd_some(a: int, b: int) ensures #![trigger gcdi(a, b)] a != 0 || b != 0 ==> gcdi(a, b) != 0 { axiom_gcd(a, b); }
pub proof fn vacuity_panics() ensures false { broadcast use b_gcd_some; }
