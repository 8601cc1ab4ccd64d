// ===================== what the laws of powers give =====================
pub proof fn lem_odd_mul(a: int, b: int) ensures ((a * b) % 2 != 0) == (a % 2 != 0 && b % 2 != 0) {
    if a % 2 == 0 { let h = a / 2; assert(a == 2 * h); assert(a * b == 2 * (h * b)) by(nonlinear_arith) requires a == 2 * h; }
    else if b % 2 == 0 { let h = b / 2; assert(b == 2 * h); assert(a * b == 2 * (a * h)) by(nonlinear_arith) requires b == 2 * h; }
    else { let g = a / 2; let h = b / 2; assert(a == 2 * g + 1 && b == 2 * h + 1); assert(a * b == 2 * (2 * g * h + g + h) + 1) by(nonlinear_arith) requires a == 2 * g + 1, b == 2 * h + 1; }
}
/// the exponents one and nothing, the base one
pub broadcast proof fn b_rpow_unit(b: real, m: real) ensures #![trigger rpow(b, m)] m == 1real ==> rpow(b, m) == b, m == 0real && b != 0real ==> rpow(b, m) == 1real, b == 1real ==> rpow(b, m) == 1real, b > 0real ==> rpow(b, m) > 0real {
    broadcast use g_lg; axiom_rpow_pos(b, m);
    if m == 1real { assert(m == ir(1)); axiom_rpow_int(b, 1); assert(mul_eq(rpow(b, m), b)); }
    if m == 0real && b != 0real { assert(m == ir(0)); axiom_rpow_int(b, 0); assert(mul_eq(rpow(b, m), 1real)); }
    if b == 1real { assert(mul_eq(rpow(b, m), 1real)); }
}
pub broadcast proof fn b_rpow_zero(b: real, n: int) ensures #![trigger rpow(b, ir(n))] b == 0real && n > 0 ==> rpow(b, ir(n)) == 0real, b != 0real ==> rpow(b, ir(n)) != 0real { axiom_rpow_int(b, n); }
/// powers of powers
pub broadcast proof fn b_rpow_rpow(a: real, k: real, m: real) ensures #![trigger rpow(rpow(a, k), m)] a > 0real ==> rpow(rpow(a, k), m) == rpow(a, rm(k, m)) {
    broadcast use g_ac, b_mul_eq; if a > 0real { axiom_rpow_pos(a, k); axiom_rpow_pos(rpow(a, k), m); axiom_rpow_pos(a, rm(k, m)); assert(rm(m, rm(k, lg(a))) == rm(rm(k, m), lg(a))); assert(mul_eq(rpow(rpow(a, k), m), rpow(a, rm(k, m)))); }
}
pub broadcast proof fn b_rpow_rpow_int(a: real, k: int, m: int) ensures #![trigger rpow(rpow(a, ir(k)), ir(m))] a != 0real || (k > 0 && m > 0) ==> rpow(rpow(a, ir(k)), ir(m)) == rpow(a, ir(k * m)), k > 0 && m > 0 ==> k * m > 0 {
    broadcast use g_ac, b_mul_eq; lem_odd_mul(k, m); assert(k > 0 && m > 0 ==> k * m > 0) by(nonlinear_arith);
    axiom_rpow_int(a, k); axiom_rpow_int(rpow(a, ir(k)), m); axiom_rpow_int(a, k * m); b_rm_int(k, m);
    if a != 0real { assert(rm(ir(m), rm(ir(k), lg(a))) == rm(ir(k * m), lg(a))); assert(mul_eq(rpow(rpow(a, ir(k)), ir(m)), rpow(a, ir(k * m)))); }
}
/// powers of products
pub proof fn lem_rpow_mul(a: real, b: real, m: real) requires a > 0real, b > 0real ensures rpow(rm(a, b), m) == rm(rpow(a, m), rpow(b, m)) {
    broadcast use b_lg, b_mul_eq, b_rm_dist; axiom_rpow_pos(a, m); axiom_rpow_pos(b, m); axiom_rpow_pos(rm(a, b), m); b_rm_sign(a, b); assert(mul_eq(rpow(rm(a, b), m), rm(rpow(a, m), rpow(b, m))));
}
pub proof fn lem_rpow_mul_int(a: real, b: real, n: int) requires n > 0 || (a != 0real && b != 0real) ensures rpow(rm(a, b), ir(n)) == rm(rpow(a, ir(n)), rpow(b, ir(n))) {
    broadcast use b_lg, b_mul_eq, b_rm_dist, b_rm_unit, b_rm_comm; axiom_rpow_int(a, n); axiom_rpow_int(b, n); axiom_rpow_int(rm(a, b), n);
    if a == 0real || b == 0real { } else { assert(mul_eq(rpow(rm(a, b), ir(n)), rm(rpow(a, ir(n)), rpow(b, ir(n))))); }
}
pub proof fn lem_rpow_add(a: real, m: real, n: real) requires a > 0real ensures rpow(a, m + n) == rm(rpow(a, m), rpow(a, n)) {
    broadcast use b_lg, b_mul_eq, b_rm_dist; axiom_rpow_pos(a, m); axiom_rpow_pos(a, n); axiom_rpow_pos(a, m + n); assert(mul_eq(rpow(a, m + n), rm(rpow(a, m), rpow(a, n))));
}
pub proof fn lem_rpow_add_int(a: real, m: int, n: int) requires a != 0real || (m > 0 && n > 0) ensures rpow(a, ir(m + n)) == rm(rpow(a, ir(m)), rpow(a, ir(n))) {
    broadcast use b_lg, b_mul_eq, b_rm_dist, b_rm_unit, b_rm_comm; axiom_rpow_int(a, m); axiom_rpow_int(a, n); axiom_rpow_int(a, m + n); assert(ir(m + n) == ir(m) + ir(n));
    if a == 0real { } else { assert(mul_eq(rpow(a, ir(m + n)), rm(rpow(a, ir(m)), rpow(a, ir(n))))); }
}
pub proof fn lem_inv(b: real) requires b != 0real ensures rpow(b, ir(-1)) != 0real, rm(rpow(b, ir(-1)), b) == 1real { broadcast use b_lg, b_mul_eq, b_rm_dist, b_rm_unit, b_rm_comm, b_lg_unit; axiom_rpow_int(b, -1); assert(mul_eq(rm(rpow(b, ir(-1)), b), 1real)); }
/// a reciprocal divides
pub broadcast proof fn b_inv(b: real) ensures #![trigger rpow(b, ir(-1))] b != 0real ==> rpow(b, ir(-1)) != 0real && rpow(b, ir(-1)) == rdv(1real, b) { if b != 0real { lem_inv(b); b_rdv(1real, b); lem_rm_cancel(rpow(b, ir(-1)), rdv(1real, b), b); } }
pub broadcast proof fn b_div(a: real, b: real) ensures #![trigger rdv(a, b)] b != 0real ==> rdv(a, b) == rm(a, rpow(b, ir(-1))), b == 1real ==> rdv(a, b) == a, b == -1real ==> rdv(a, b) == -a, a > 0real && b > 0real ==> rdv(a, b) > 0real { if b != 0real { b_rdv(a, b); b_lg(rdv(a, b), b); } broadcast use g_ac; if b != 0real { lem_inv(b); b_rdv(a, b); let i = rpow(b, ir(-1)); assert(rm(rm(a, i), b) == rm(a, rm(i, b))); lem_rm_cancel(rm(a, i), rdv(a, b), b); if b == 1real { lem_rm_cancel(rdv(a, b), a, b); } if b == -1real { assert(rm(-1real, -a) == a); lem_rm_cancel(rdv(a, b), -a, b); } } }
/// dividing a product: dividing one factor
pub broadcast proof fn b_div_mul(x: real, f: real, b: real) ensures #![trigger rm(x, rdv(f, b))] b != 0real ==> rm(x, rdv(f, b)) == rdv(rm(f, x), b) { broadcast use g_ac; if b != 0real { b_div(f, b); b_div(rm(f, x), b); } }
/// the common factor of dividend and divisor taken out
pub proof fn lem_tdiv(a: int, g: int, q: int) requires g > 0, a == g * q ensures tdiv(a, g) == q { reveal(tdiv); if a >= 0 { assert(q >= 0) by(nonlinear_arith) requires g * q >= 0, g > 0; assert(a / g == q) by(nonlinear_arith) requires a == g * q, g > 0; } else { assert(q < 0) by(nonlinear_arith) requires g * q < 0, g > 0; assert((-a) / g == -q) by(nonlinear_arith) requires a == g * q, g > 0; } }
pub open spec fn rat(n: int, d: int) -> real { rdv(ir(n), ir(d)) }
pub broadcast proof fn b_gcd(a: int, b: int) ensures #![trigger gcdi(a, b)] a != 0 || b != 0 ==> ({ let g = gcdi(a, b); let (p, q) = (tdiv(a, g), tdiv(b, g)); g > 0 && (a != 0 ==> p != 0) && (a > 0 ==> p > 0) && (b != 0 ==> q != 0) && (b > 0 ==> q > 0)
    && rm(ir(g), ir(p)) == ir(a) && rm(ir(g), ir(q)) == ir(b) && (a != 0 ==> rat(b, a) == rm(ir(q), rpow(ir(p), ir(-1)))) && (a == g ==> rat(b, a) == ir(q)) && (a != 0 && b == g ==> rat(b, a) == rpow(ir(p), ir(-1))) }) {
    if a != 0 || b != 0 { axiom_gcd(a, b); let g = gcdi(a, b); let (p, q) = gcdq(a, b); lem_tdiv(a, g, p); lem_tdiv(b, g, q); assert(b > 0 ==> q > 0) by(nonlinear_arith) requires b == g * q, g > 0; assert(a > 0 ==> p > 0) by(nonlinear_arith) requires a == g * p, g > 0;
        assert(a != 0 ==> p != 0) by(nonlinear_arith) requires a == g * p; assert(b != 0 ==> q != 0) by(nonlinear_arith) requires b == g * q; b_rm_int(g, p); b_rm_int(g, q);
        if a != 0 { let i = rpow(ir(p), ir(-1)); lem_inv(ir(p)); broadcast use g_ac; assert(rm(rm(ir(q), i), ir(a)) == rm(rm(rm(i, ir(p)), ir(g)), ir(q))); assert(rm(rm(ir(q), i), ir(a)) == ir(b)); b_rdv(ir(b), ir(a)); lem_rm_cancel(rm(ir(q), i), rat(b, a), ir(a));
            if a == g { assert(g * p == g ==> p == 1) by(nonlinear_arith) requires g > 0; assert(i == 1real) by { assert(rm(i, ir(1)) == i); } }
            if b == g { assert(g * q == g ==> q == 1) by(nonlinear_arith) requires g > 0; } }
    }
}
/// whole powers of whole numbers
pub proof fn lem_ipow(b: int, n: int) requires n >= 0, b != 0 ensures ipow(b, n) != 0, rpow(ir(b), ir(n)) == ir(ipow(b, n)), b > 0 ==> ipow(b, n) > 0 decreases n { broadcast use g_ac;
    if n == 0 { b_rpow_unit(ir(b), ir(0)); } else { lem_ipow(b, n - 1); lem_rpow_add_int(ir(b), 1, n - 1); b_rpow_unit(ir(b), ir(1)); b_rm_int(b, ipow(b, n - 1)); b_imul(b, ipow(b, n - 1)); }
}
pub broadcast proof fn b_ipow(b: int, n: int) ensures #![trigger ipow(b, n)] n >= 0 && b != 0 ==> ipow(b, n) != 0 && rpow(ir(b), ir(n)) == ir(ipow(b, n)) && (b > 0 ==> ipow(b, n) > 0) && rpow(ir(ipow(b, n)), ir(-1)) == rpow(ir(b), ir(-n)) { if n >= 0 && b != 0 { lem_ipow(b, n); b_rpow_rpow_int(ir(b), n, -1); assert(n * -1 == -n) by(nonlinear_arith); } }
/// the power of a logarithm, the logarithm of a power
pub broadcast proof fn b_rpow_rlog(a: real, b: real) ensures #![trigger rpow(b, rlog(a, b))] a > 0real && b > 0real && b != 1real ==> rpow(b, rlog(a, b)) == a { if a > 0real && b > 0real && b != 1real { axiom_rlog(a, b); axiom_rpow_pos(b, rlog(a, b)); broadcast use b_mul_eq; assert(mul_eq(rpow(b, rlog(a, b)), a)); } }
pub broadcast proof fn b_rlog_rpow(b: real, m: real) ensures #![trigger rlog(rpow(b, m), b)] b > 0real && b != 1real ==> rlog(rpow(b, m), b) == m { if b > 0real && b != 1real { axiom_rpow_pos(b, m); axiom_rlog(rpow(b, m), b); axiom_lg(b, 1real); lem_lg_one(); if lg(b) == 0real { lem_lg_inj(b, 1real); } lem_rm_cancel(rlog(rpow(b, m), b), m, lg(b)); } }
/// at most as many are chosen as there are
pub broadcast proof fn b_cnt_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) ensures #![trigger s.filter(p)] (forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s[i] is Integer) ==> s.filter(p).len() <= nint(s), (forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s[i] is Real) ==> s.filter(p).len() <= nreal(s) {
    if forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s[i] is Integer { lem_cnt_filter(s, p, true); }
    if forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s[i] is Real { lem_cnt_filter(s, p, false); }
}
pub open spec fn cnt(s: Seq<Expression>, w: bool) -> int { if w { nint(s) } else { nreal(s) } }
pub open spec fn kind(e: Expression, w: bool) -> bool { if w { e is Integer } else { e is Real } }
pub proof fn lem_cnt_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool, w: bool) requires forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> kind(s[i], w) ensures s.filter(p).len() <= cnt(s, w), nint(s) >= 0, nreal(s) >= 0 decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && p(#[trigger] d[i]) implies kind(d[i], w) by { assert(s[i] == d[i]); } lem_cnt_filter(d, p, w); assert(s[s.len() - 1] == s.last()); } else { assert(s.filter(p) =~= Seq::empty()); }
}
/// constants that are not nothing multiply to something
pub broadcast proof fn b_lit_prod(s: Seq<Expression>) ensures #![trigger allp(Pr::NoZero, s), prodv(s)] allp(Pr::Lit, s) && allp(Pr::NoZero, s) ==> prodv(s) != 0real decreases s.len() { broadcast use b_rm_sign;
    if s.len() > 0 && allp(Pr::Lit, s) && allp(Pr::NoZero, s) { b_all_last(Pr::Lit, s); b_all_last(Pr::NoZero, s); b_lit_prod(s.drop_last()); assert(eval(s.last()) != 0real); assert(prodv(s) == rm(prodv(s.drop_last()), eval(s.last()))); }
}
pub broadcast proof fn b_lit_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> s[i] is Integer || s[i] is Real ensures #![trigger prodv(s.filter(p))] allp(Pr::NoZero, s) ==> prodv(s.filter(p)) != 0real { b_all_filter(Pr::NoZero, s, p); b_all_filter_in(Pr::Lit, s, p); b_lit_prod(s.filter(p)); }
/// the choice of at most one constant, and the rest
pub broadcast proof fn b_part_one(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) != q(s[i])
    ensures #![trigger s.filter(p), prodv(s.filter(q))] prodv(s) == rm(prodv(s.filter(p)), prodv(s.filter(q))) { b_part(s, p, q); }
/// of at most one integer, one that is chosen is all there are
pub broadcast proof fn b_part_int(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool)
    requires nint(s) <= 1, s.filter(p).len() > 0, forall|i: int| 0 <= i < s.len() ==> (p(#[trigger] s[i]) ==> s[i] is Integer) && q(s[i]) == !(s[i] is Integer)
    ensures #![trigger s.filter(p), prodv(s.filter(q))] prodv(s) == rm(eval(s.filter(p)[0]), prodv(s.filter(q))) decreases s.len() { broadcast use b_rm_comm;
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); let x = s.last(); assert(s[s.len() - 1] == x);
        assert forall|i: int| 0 <= i < d.len() implies (p(#[trigger] d[i]) ==> d[i] is Integer) && q(d[i]) == !(d[i] is Integer) by { assert(d[i] == s[i]); }
        lem_cnt_filter(d, p, true);
        if p(x) { assert(d.filter(p).len() == 0); assert(s.filter(p)[0] == x); lem_no_int(d, q); b_prod_filter_all(d, q); }
        else { b_part_int(d, p, q); b_prod_push(d.filter(q), x); broadcast use g_ac; assert(rm(rm(eval(d.filter(p)[0]), prodv(d.filter(q))), eval(x)) == rm(eval(d.filter(p)[0]), rm(prodv(d.filter(q)), eval(x)))); }
    } else { assert(s.filter(p) =~= Seq::empty()); }
}
pub proof fn lem_no_int(s: Seq<Expression>, q: spec_fn(Expression) -> bool) requires nint(s) <= 0, forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) == !(s[i] is Integer) ensures forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies q(#[trigger] d[i]) == !(d[i] is Integer) by { assert(d[i] == s[i]); } lem_cnt_filter(d, |e: Expression| false, true); lem_no_int(d, q); assert forall|i: int| 0 <= i < s.len() implies q(#[trigger] s[i]) by { if i < d.len() { assert(d[i] == s[i]); } } }
}
pub proof fn b_prod_filter_all(s: Seq<Expression>, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) ensures prodv(s.filter(q)) == prodv(s) { b_prod_filter(s, q); }
/// the product of two powers
pub broadcast proof fn b_rpow_mul(a: real, b: real, m: real) ensures #![trigger rm(rpow(a, m), rpow(b, m))] a > 0real && b > 0real ==> rm(rpow(a, m), rpow(b, m)) == rpow(rm(a, b), m) { if a > 0real && b > 0real { lem_rpow_mul(a, b, m); } }
pub broadcast proof fn b_rpow_mul_int(a: real, b: real, n: int) ensures #![trigger rm(rpow(a, ir(n)), rpow(b, ir(n)))] n > 0 || (a != 0real && b != 0real) ==> rm(rpow(a, ir(n)), rpow(b, ir(n))) == rpow(rm(a, b), ir(n)) { if n > 0 || (a != 0real && b != 0real) { lem_rpow_mul_int(a, b, n); } }
/// a product of one
pub broadcast proof fn b_prod_one(s: Seq<Expression>) requires s.len() <= 1 ensures #![trigger prodv(s), s[0]] prodv(s) == if s.len() == 0 { 1real } else { eval(s[0]) } { b_prod_small(s); }
pub broadcast group g_prodx { b_prod_push, b_prod_cat, b_prod_filter, b_prod_one, b_eval_prod }
/// a power, a logarithm, a constant, looked into once
pub broadcast proof fn b_power_node(p: AssociativeOperation) ensures
    #![trigger shp(Expression::Power(p))] #![trigger dom(Expression::Power(p))] #![trigger spos(Expression::Power(p))] #![trigger eval(Expression::Power(p))]
    ({ let e = Expression::Power(p); let (a, m) = (*p.argument, *p.modifier);
    shp(e) == (!zero_lit(a) && !zero_lit(m) && (a is Integer && m is Integer ==> int_of(m) == -1) && shp(a) && shp(m))
    && dom(e) == (dom(a) && dom(m) && pdom(a, m)) && spos(e) == spos(a) && eval(e) == rpow(eval(a), eval(m)) }) {}
pub broadcast proof fn b_log_node(p: AssociativeOperation) ensures
    #![trigger shp(Expression::Logarithm(p))] #![trigger dom(Expression::Logarithm(p))] #![trigger eval(Expression::Logarithm(p))]
    ({ let e = Expression::Logarithm(p); let (a, m) = (*p.argument, *p.modifier);
    shp(e) == (shp(a) && shp(m)) && dom(e) == (dom(a) && dom(m) && ldom(a, m)) && eval(e) == rlog(eval(a), eval(m)) }) {}
pub broadcast proof fn b_lit_node(e: Expression) ensures #![trigger shp(e)] #![trigger dom(e)] #![trigger spos(e)] e is Integer ==> shp(e) && dom(e) && spos(e) == (int_of(e) > 0), e is Real ==> shp(e) && dom(e) && spos(e) == (e->Real_0.data.g@ > 0real) {}
// ---- what taking a power promises
pub open spec fn pwr(b: Expression, m: Expression, r: Expression) -> bool {
    &&& good(b) && good(m) && pdom(b, m) ==> dom(r) && eval(r) == rpow(eval(b), eval(m))
    &&& shp(b) && shp(m) ==> shp(r)
    &&& good(b) && good(m) && spos(b) ==> spos(r)
    &&& good(b) && m is Integer && !zero_lit(b) ==> !zero_lit(r)
    &&& good(b) && m is Integer && !zero_lit(b) && int_of(m) != 0 && dom(r) ==> pdom(b, m)
}
/// what taking a logarithm promises
pub open spec fn lgr(a: Expression, b: Expression, r: Expression) -> bool {
    &&& good(a) && good(b) && eval(a) > 0real && eval(b) > 0real && eval(b) != 1real ==> eval(r) == rlog(eval(a), eval(b))
    &&& good(a) && good(b) && ldom(a, b) ==> dom(r) && eval(r) == rlog(eval(a), eval(b))
    &&& shp(a) && shp(b) ==> shp(r)
}
/// what division promises
pub open spec fn dvr(a: Expression, b: Expression, r: Expression) -> bool {
    &&& good(a) && good(b) && eval(b) != 0real ==> dom(r) && eval(r) == rdv(eval(a), eval(b))
    &&& shp(a) && shp(b) ==> shp(r)
    &&& good(a) && good(b) && spos(a) && spos(b) ==> spos(r)
    &&& a is Integer && int_of(a) == 0 && b is Integer && int_of(b) == 1 ==> r is Integer
    &&& good(a) && good(b) && !zero_lit(a) && !zero_lit(b) && dom(r) ==> eval(b) != 0real
}
/// the powers of the factors
pub broadcast proof fn b_map_pwr(s: Seq<Expression>, t: Seq<Expression>, m: Expression) requires mapped__(s, t), forall|i: int| 0 <= i < s.len() ==> pwr(#[trigger] s[i], m, t[i]) ensures #![trigger mapped__(s, t), shp(m)]
    all_good(s) && good(m) && (allp(Pr::Spos, s) || (m is Integer && (int_of(m) > 0 || prodv(s) != 0real))) ==> allp(Pr::Dom, t) && prodv(t) == rpow(prodv(s), eval(m)),
    allp(Pr::Shp, s) && shp(m) ==> allp(Pr::Shp, t),
    all_good(s) && good(m) && allp(Pr::Spos, s) ==> allp(Pr::Spos, t),
    all_good(s) && m is Integer && allp(Pr::NoZero, s) ==> allp(Pr::NoZero, t)
    decreases s.len()
{
    broadcast use b_all_last, b_all_none, b_rm_unit, b_rpow_unit;
    if s.len() == 0 { if m is Integer && int_of(m) > 0 { axiom_rpow_int(1real, int_of(m)); } } else {
        let (d, e) = (s.drop_last(), t.drop_last()); assert(d.len() == e.len());
        assert forall|i: int| 0 <= i < d.len() implies pwr(#[trigger] d[i], m, e[i]) by { assert(d[i] == s[i] && e[i] == t[i]); }
        b_map_pwr(d, e, m); assert(pwr(s[s.len() - 1], m, t[t.len() - 1])); assert(s.last() == s[s.len() - 1] && t.last() == t[t.len() - 1]);
        let (a, b) = (prodv(d), eval(s.last()));
        if all_good(s) && good(m) {
            if allp(Pr::Spos, s) { b_spos_seqp(d); b_spos(s.last()); lem_rpow_mul(a, b, eval(m)); }
            else if m is Integer && (int_of(m) > 0 || prodv(s) != 0real) { b_lg(a, b); lem_rpow_mul_int(a, b, int_of(m)); }
        }
    }
}
/// a power of a power, taken at once
pub broadcast proof fn b_pow_pow(b: Expression, m: Expression, e: Expression) requires b is Power ensures #![trigger pdom(b, m), pdom(*b->Power_0.argument, e)] ({ let (a, k) = (*b->Power_0.argument, *b->Power_0.modifier);
    good(b) && eval(e) == rm(eval(k), eval(m)) && (k is Integer && m is Integer ==> e is Integer) ==>
        (pdom(b, m) ==> pdom(a, e) && rpow(eval(a), eval(e)) == rpow(eval(b), eval(m)))
        && (m is Integer && !spos(a) ==> e is Integer && int_of(e) == int_of(k) * int_of(m) && (int_of(m) != 0 ==> int_of(e) != 0 && (pdom(a, e) ==> pdom(b, m))))
        && (spos(a) ==> spos(b)) })
{
    let (a, k) = (*b->Power_0.argument, *b->Power_0.modifier);
    if good(b) && eval(e) == rm(eval(k), eval(m)) && (k is Integer && m is Integer ==> e is Integer) {
        if spos(a) { b_spos(a); b_rpow_rpow(eval(a), eval(k), eval(m)); }
        else if m is Integer {
            let (i, j) = (int_of(k), int_of(m)); b_rm_int(i, j); assert(ir(int_of(e)) == ir(i * j)); b_rpow_rpow_int(eval(a), i, j); axiom_rpow_int(eval(a), i);
            assert(i != 0 && j != 0 ==> i * j != 0) by(nonlinear_arith); assert(i > 0 && i * j > 0 ==> j > 0) by(nonlinear_arith);
        }
    }
}
/// a power in two steps
pub broadcast proof fn b_pow_split(b: Expression, x: Expression, q: Expression, y: Expression, r: Expression) ensures #![trigger pwr(b, x, q), pwr(q, y, r)] good(b) && spos(b) && good(x) && good(y) && pwr(b, x, q) && pwr(q, y, r) ==> good(r) && spos(r) && eval(r) == rpow(eval(b), rm(eval(x), eval(y))) { if good(b) && spos(b) && good(x) && good(y) && pwr(b, x, q) && pwr(q, y, r) { b_spos(b); b_rpow_rpow(eval(b), eval(x), eval(y)); } }
pub broadcast group g_div { b_div, b_div_mul, b_gcd, b_power_node, b_lit_node, b_part_int, b_part_one, b_filter_at, b_filter_has, b_cnt_filter, b_spos }
pub broadcast group g_log { b_log_node, b_power_node, b_lit_node, b_rlog_rpow, b_spos, b_ipow }
pub broadcast group g_pow { b_part_int, b_rpow_mul, b_rpow_mul_int, b_part_one, b_power_node, b_log_node, b_lit_node, b_rpow_unit, b_rpow_zero, b_pow_pow, b_pow_split, b_rpow_rlog, b_rlog_rpow, b_ipow, b_cnt_filter, b_filter_at, b_filter_has, b_lit_filter, b_map_pwr, b_spos, b_spos_seqp, b_inv }
pub proof fn vacuity_powlaw() ensures false { broadcast use {g_pow, g_all, g_prod, g_div}; }
