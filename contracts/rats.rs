// ===================== differences, decided =====================
/// d stands for what a exceeds b by
pub open spec fn diffs(a: Expression, b: Expression, d: Expression) -> bool { good(a) && good(b) ==> good(d) && eval(d) == eval(a) - eval(b) }
pub broadcast proof fn b_diffs(a: Expression, b: Expression, m: Expression, d: Expression) ensures #![trigger dif(a, b, m), keep(m, d)] dif(a, b, m) && keep(m, d) ==> diffs(a, b, d) {}
pub open spec fn litv(d: Expression) -> bool { d is Integer || d is Real }
pub open spec fn eq0(d: Expression) -> bool { (d is Integer && int_of(d) == 0) || (d is Real && d->Real_0.data.g@ == 0real) }
pub open spec fn gt0(d: Expression) -> bool { (d is Integer && int_of(d) > 0) || (d is Real && d->Real_0.data.g@ > 0real) }
pub open spec fn lt0(d: Expression) -> bool { (d is Integer && int_of(d) < 0) || (d is Real && d->Real_0.data.g@ < 0real) }
/// of a difference that is a number, exactly one of the three holds, and the others follow; of any other, none
pub proof fn lem_exactly_one(d: Expression) ensures
    litv(d) ==> (eq0(d) || gt0(d) || lt0(d)) && !(eq0(d) && gt0(d)) && !(eq0(d) && lt0(d)) && !(gt0(d) && lt0(d)),
    !litv(d) ==> !eq0(d) && !gt0(d) && !lt0(d),
    eq0(d) ==> eval(d) == 0real, gt0(d) ==> eval(d) > 0real, lt0(d) ==> eval(d) < 0real {}
// ===================== fractions =====================
pub open spec fn rn(q: Rational) -> int { q.numerator.data.g@ }
pub open spec fn rd(q: Rational) -> int { q.denominator.data.g@ }
pub open spec fn rv(q: Rational) -> real { rat(rn(q), rd(q)) }
pub open spec fn rpos(q: Rational) -> bool { rn(q) > 0 && rd(q) > 0 }
pub open spec fn rnn(q: Rational) -> bool { rpos(q) || (rn(q) == 0 && rd(q) == 1) }
/// what making a fraction promises
pub open spec fn rfrom(n: int, d: int, q: Rational) -> bool { d != 0 ==> rd(q) != 0 && rv(q) == rat(n, d) && (n > 0 && d > 0 ==> rpos(q)) && (n >= 0 && d > 0 ==> rnn(q)) && (n == 0 ==> rn(q) == 0 && rd(q) == 1) }
pub open spec fn radd(x: Rational, y: Rational, q: Rational) -> bool { rd(x) != 0 && rd(y) != 0 ==> rd(q) != 0 && rv(q) == rv(x) + rv(y) && (rnn(x) && rnn(y) ==> rnn(q)) }
pub open spec fn rsub(x: Rational, y: Rational, q: Rational) -> bool { rd(x) != 0 && rd(y) != 0 ==> rd(q) != 0 && rv(q) == rv(x) - rv(y) }
pub open spec fn rmul(x: Rational, y: Rational, q: Rational) -> bool { rd(x) != 0 && rd(y) != 0 ==> rd(q) != 0 && rv(q) == rm(rv(x), rv(y)) && (rpos(x) && rpos(y) ==> rpos(q)) }
pub open spec fn rdiv(x: Rational, y: Rational, q: Rational) -> bool { rd(x) != 0 && rd(y) != 0 && rn(y) != 0 ==> rd(q) != 0 && rm(rv(q), rv(y)) == rv(x) }
pub open spec fn rexp(q: Rational, e: Expression) -> bool { rd(q) != 0 ==> good(e) && eval(e) == rv(q) && (rpos(q) ==> spos(e)) && (rpos(q) || (rn(q) == 0 && rd(q) == 1) ==> szp(e)) }
pub proof fn lem_rat(n: int, d: int) requires d != 0 ensures rm(rat(n, d), ir(d)) == ir(n) { b_rdv(ir(n), ir(d)); }
pub proof fn lem_rat_is(n: int, d: int, v: real) requires d != 0, rm(v, ir(d)) == ir(n) ensures rat(n, d) == v { lem_rat(n, d); lem_rm_cancel(v, rat(n, d), ir(d)); }
pub broadcast proof fn b_rat_gcd(a: int, b: int) ensures #![trigger gcdi(a, b)] b != 0 ==> ({ let g = gcdi(a, b); let (p, q) = (tdiv(a, g), tdiv(b, g)); g != 0 && q != 0 && rat(p, q) == rat(a, b) && (a > 0 ==> p > 0) && (b > 0 ==> q > 0) && (a >= 0 ==> p >= 0) && (a == 0 ==> p == 0) }) {
    if b != 0 { b_gcd(a, b); axiom_gcd(a, b); let g = gcdi(a, b); let (p, q) = (tdiv(a, g), tdiv(b, g)); lem_rat(a, b); assert(ir(g) != 0real);
        broadcast use b_rm_comm; b_rm_assoc(rat(a, b), ir(q), ir(g)); b_rm_comm(ir(g), ir(q)); b_rm_comm(ir(g), ir(p)); assert(rm(rm(rat(a, b), ir(q)), ir(g)) == rm(ir(p), ir(g))); lem_rm_cancel(rm(rat(a, b), ir(q)), ir(p), ir(g)); lem_rat_is(p, q, rat(a, b));
        if a == 0 { lem_tdiv(0, g, 0); } }
}
pub proof fn lem_rat_one(n: int) ensures rat(n, 1) == ir(n) { broadcast use b_rm_unit, b_rm_comm; lem_rat_is(n, 1, ir(n)); }
pub broadcast proof fn b_rat_one(n: int, d: int) ensures #![trigger rat(n, d)] d == 1 ==> rat(n, d) == ir(n), d != 0 && n == 0 ==> rat(n, d) == 0real { if d == 1 { lem_rat_one(n); } if d != 0 && n == 0 { broadcast use b_rm_unit; lem_rat_is(0, d, 0real); } }
pub proof fn lem_rat_pos(n: int, d: int) requires n > 0, d > 0 ensures rat(n, d) > 0real { broadcast use b_div; }
/// sums and differences, products and quotients of fractions
pub broadcast proof fn b_radd(n: int, d: int, x: Rational, y: Rational, q: Rational) ensures #![trigger rfrom(n, d, q), radd(x, y, q)] n == rn(x) * rd(y) + rn(y) * rd(x) && d == rd(x) * rd(y) && rfrom(n, d, q) ==> radd(x, y, q) {
    let (a, b, c, e) = (rn(x), rd(x), rn(y), rd(y));
    if n == a * e + c * b && d == b * e && rfrom(n, d, q) && b != 0 && e != 0 {
        assert(b * e != 0) by(nonlinear_arith) requires b != 0, e != 0; lem_rat(a, b); lem_rat(c, e); broadcast use g_ac; b_rm_int(a, e); b_rm_int(c, b); b_rm_int(b, e);
        let (u, v) = (rv(x), rv(y)); lem_rm_dist(ir(d), u, v); assert(rm(u, rm(ir(b), ir(e))) == rm(ir(a), ir(e))); assert(rm(v, rm(ir(b), ir(e))) == rm(rm(v, ir(e)), ir(b))); assert(rm(u + v, ir(d)) == ir(n)); lem_rat_is(n, d, u + v);
        assert(rnn(x) && rnn(y) ==> n >= 0 && d > 0) by { assert(a >= 0 && b > 0 && c >= 0 && e > 0 ==> a * e + c * b >= 0 && b * e > 0) by(nonlinear_arith); }
    }
}
pub broadcast proof fn b_rsub(n: int, d: int, x: Rational, y: Rational, q: Rational) ensures #![trigger rfrom(n, d, q), rsub(x, y, q)] n == rn(x) * rd(y) - rn(y) * rd(x) && d == rd(x) * rd(y) && rfrom(n, d, q) ==> rsub(x, y, q) {
    let (a, b, c, e) = (rn(x), rd(x), rn(y), rd(y));
    if n == a * e - c * b && d == b * e && rfrom(n, d, q) && b != 0 && e != 0 {
        assert(b * e != 0) by(nonlinear_arith) requires b != 0, e != 0; lem_rat(a, b); lem_rat(c, e); broadcast use g_ac; b_rm_int(a, e); b_rm_int(c, b); b_rm_int(b, e);
        let (u, v) = (rv(x), rv(y)); lem_rm_dist(ir(d), u - v, v); assert(rm(u, rm(ir(b), ir(e))) == rm(ir(a), ir(e))); assert(rm(v, rm(ir(b), ir(e))) == rm(rm(v, ir(e)), ir(b))); assert(u - v + v == u); assert(rm(u - v, ir(d)) == ir(n)); lem_rat_is(n, d, u - v);
    }
}
pub broadcast proof fn b_rmul(n: int, d: int, x: Rational, y: Rational, q: Rational) ensures #![trigger rfrom(n, d, q), rmul(x, y, q)] n == rn(x) * rn(y) && d == rd(x) * rd(y) && rfrom(n, d, q) ==> rmul(x, y, q) {
    let (a, b, c, e) = (rn(x), rd(x), rn(y), rd(y));
    if n == a * c && d == b * e && rfrom(n, d, q) && b != 0 && e != 0 {
        assert(b * e != 0) by(nonlinear_arith) requires b != 0, e != 0; lem_rat(a, b); lem_rat(c, e); broadcast use g_ac; b_rm_int(a, c); b_rm_int(b, e);
        let (u, v) = (rv(x), rv(y)); assert(rm(rm(u, v), rm(ir(b), ir(e))) == rm(rm(u, ir(b)), rm(v, ir(e)))); lem_rat_is(n, d, rm(u, v));
        assert(a > 0 && c > 0 ==> a * c > 0) by(nonlinear_arith); assert(b > 0 && e > 0 ==> b * e > 0) by(nonlinear_arith);
    }
}
pub broadcast proof fn b_rdiv(n: int, d: int, x: Rational, y: Rational, q: Rational) ensures #![trigger rfrom(n, d, q), rdiv(x, y, q)] n == rn(x) * rd(y) && d == rd(x) * rn(y) && rfrom(n, d, q) ==> rdiv(x, y, q) {
    let (a, b, c, e) = (rn(x), rd(x), rn(y), rd(y));
    if n == a * e && d == b * c && rfrom(n, d, q) && b != 0 && e != 0 && c != 0 {
        assert(b * c != 0) by(nonlinear_arith) requires b != 0, c != 0; lem_rat(a, b); lem_rat(c, e); lem_rat(n, d); broadcast use g_ac; b_rm_int(a, e); b_rm_int(b, c);
        let (u, v, w) = (rv(x), rv(y), rv(q)); assert(rm(rm(w, v), rm(ir(b), ir(e))) == rm(w, rm(ir(b), rm(v, ir(e))))); assert(rm(u, rm(ir(b), ir(e))) == rm(rm(u, ir(b)), ir(e))); assert(rm(rm(w, v), rm(ir(b), ir(e))) == rm(u, rm(ir(b), ir(e))));
        b_rm_sign(ir(b), ir(e)); lem_rm_cancel(rm(w, v), u, rm(ir(b), ir(e)));
    }
}
// ---- reading a fraction off an expression
pub open spec fn recip(e: Expression) -> bool { e is Power && *e->Power_0.argument is Integer && *e->Power_0.modifier is Integer }
pub open spec fn nrat(s: Seq<Expression>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nrat(s.drop_last()) + (if s.last() is Integer || recip(s.last()) { 1int } else { 0 }) } }
pub open spec fn rlike(e: Expression) -> bool { e is Integer || recip(e) || (e is Multiplication && nrat(e->Multiplication_0.items.s@) == e->Multiplication_0.items.s@.len()) }
/// q was read off e
pub open spec fn qfe(e: Expression, q: Rational) -> bool {
    &&& shp(e) ==> rd(q) != 0
    &&& good(e) ==> rv(q) == eval(e)
    &&& good(e) && spos(e) ==> rpos(q)
}
/// whole numbers, multiplied
pub open spec fn prodi(s: Seq<Symbol<BigInt>>) -> real decreases s.len() { if s.len() == 0 { 1real } else { rm(prodi(s.drop_last()), ir(s.last().data.g@)) } }
#[verifier::opaque] pub open spec fn alli(p: int, s: Seq<Symbol<BigInt>>) -> bool { forall|i: int| 0 <= i < s.len() ==> if p == 0 { (#[trigger] s[i]).data.g@ != 0 } else { s[i].data.g@ > 0 } }
pub broadcast proof fn b_prodi_first(s: Seq<Symbol<BigInt>>, a: real) requires s.len() > 0 ensures #![trigger rm(rm(a, ir(s.first().data.g@)), prodi(s.drop_first()))] rm(rm(a, ir(s.first().data.g@)), prodi(s.drop_first())) == rm(a, prodi(s)) { lem_prodi_first(s); b_rm_assoc(a, ir(s.first().data.g@), prodi(s.drop_first())); }
pub proof fn lem_prodi_first(s: Seq<Symbol<BigInt>>) requires s.len() > 0 ensures rm(ir(s.first().data.g@), prodi(s.drop_first())) == prodi(s) decreases s.len() { broadcast use g_ac;
    if s.len() == 1 { assert(s.drop_first() =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); } else { assert(s.drop_first().drop_last() =~= s.drop_last().drop_first()); lem_prodi_first(s.drop_last()); assert(s.drop_last().first() == s.first()); assert(s.drop_first().last() == s.last()); }
}
pub broadcast proof fn b_alli_first(p: int, s: Seq<Symbol<BigInt>>) requires s.len() > 0 ensures #![trigger alli(p, s), s.first()] #![trigger alli(p, s.drop_first())] alli(p, s) ==> alli(p, s.drop_first()) && (if p == 0 { s.first().data.g@ != 0 } else { s.first().data.g@ > 0 }) { reveal(alli); if alli(p, s) { assert(if p == 0 { s[0].data.g@ != 0 } else { s[0].data.g@ > 0 }); assert forall|i: int| 0 <= i < s.drop_first().len() implies if p == 0 { (#[trigger] s.drop_first()[i]).data.g@ != 0 } else { s.drop_first()[i].data.g@ > 0 } by { assert(s.drop_first()[i] == s[i + 1]); } } }
pub broadcast proof fn b_prodi_int(s: Seq<Expression>, f: spec_fn(Expression) -> Symbol<BigInt>) requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Integer ==> f(s[i]) == s[i]->Integer_0
    ensures #![trigger s.map_values(f)] allp(Pr::Int, s) ==> prodi(s.map_values(f)) == prodv(s) && alli(0, s.map_values(f)) == allp(Pr::NoZero, s) && (allp(Pr::Spos, s) ==> alli(1, s.map_values(f)))
{ if allp(Pr::Int, s) { lem_ints(s, f); lem_ints_prod(s, f); } }
pub proof fn lem_ints(s: Seq<Expression>, f: spec_fn(Expression) -> Symbol<BigInt>) requires allp(Pr::Int, s), forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Integer ==> f(s[i]) == s[i]->Integer_0
    ensures alli(0, s.map_values(f)) == allp(Pr::NoZero, s), allp(Pr::Spos, s) ==> alli(1, s.map_values(f)) {
    reveal(allp); reveal(alli); let t = s.map_values(f);
    assert forall|i: int| 0 <= i < s.len() implies s[i] is Integer && t[i].data.g@ == int_of(s[i]) by { assert(holds(Pr::Int, s[i])); }
    if alli(0, t) { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::NoZero, #[trigger] s[i]) by { assert(t[i].data.g@ != 0); } assert(allp(Pr::NoZero, s)); }
    if allp(Pr::NoZero, s) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).data.g@ != 0 by { assert(holds(Pr::NoZero, s[i])); } assert(alli(0, t)); }
    if allp(Pr::Spos, s) { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).data.g@ > 0 by { assert(holds(Pr::Spos, s[i])); } assert(alli(1, t)); }
}
pub proof fn lem_ints_prod(s: Seq<Expression>, f: spec_fn(Expression) -> Symbol<BigInt>) requires allp(Pr::Int, s), forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Integer ==> f(s[i]) == s[i]->Integer_0
    ensures prodi(s.map_values(f)) == prodv(s) decreases s.len() {
    let t = s.map_values(f);
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && (#[trigger] d[i]) is Integer implies f(d[i]) == d[i]->Integer_0 by { assert(d[i] == s[i]); } b_all_last(Pr::Int, s); lem_ints_prod(d, f); assert(t.drop_last() =~= d.map_values(f)); assert(s.last() == s[s.len() - 1]); assert(s.last() is Integer); assert(t.last() == f(s.last())); assert(t.last().data.g@ == int_of(s.last())); assert(eval(s.last()) == ir(int_of(s.last()))); }
}
/// the whole factors, and the bases of the reciprocals
pub broadcast proof fn b_rat_split(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool, m: spec_fn(Expression) -> Expression)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == (s[i] is Integer) && q(s[i]) == recip(s[i]) && (recip(s[i]) ==> m(s[i]) == *s[i]->Power_0.argument)
    ensures #![trigger s.filter(p), s.filter(q).map_values(m)] ({ let (t, u) = (s.filter(p), s.filter(q).map_values(m));
        t.len() + u.len() == nrat(s) && allp(Pr::Int, t) && allp(Pr::Int, u)
        && (allp(Pr::Shp, s) ==> allp(Pr::NoZero, u)) && (allp(Pr::Spos, s) ==> allp(Pr::Spos, t) && allp(Pr::Spos, u))
        && (nrat(s) <= s.len()) && (nrat(s) == s.len() && all_good(s) ==> prodv(u) != 0real && rm(prodv(s), prodv(u)) == prodv(t)) })
    decreases s.len()
{
    broadcast use b_all_none, b_all_push, b_rm_unit; reveal_with_fuel(Seq::filter, 1);
    let (t, u) = (s.filter(p), s.filter(q).map_values(m));
    if s.len() == 0 { assert(t =~= Seq::empty()); assert(u =~= Seq::empty()); b_rm_comm(1real, 1real); } else {
        let d = s.drop_last(); let x = s.last(); assert(s[s.len() - 1] == x);
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) == (d[i] is Integer) && q(d[i]) == recip(d[i]) && (recip(d[i]) ==> m(d[i]) == *d[i]->Power_0.argument) by { assert(d[i] == s[i]); }
        b_rat_split(d, p, q, m);
        let (t1, u1) = (d.filter(p), d.filter(q).map_values(m));
        b_all_last(Pr::Shp, s); b_all_last(Pr::Dom, s); b_all_last(Pr::Spos, s);
        b_prod_push(t1, x); if recip(x) { let a = *x->Power_0.argument; b_prod_push(u1, a); assert(u =~= u1.push(a)); broadcast use b_power_node;
            if nrat(s) == s.len() && all_good(s) { assert(shp(x) && dom(x)); assert(int_of(*x->Power_0.modifier) == -1); lem_inv(eval(a)); b_rm_sign(prodv(u1), eval(a)); let (c, e, f, i) = (prodv(d), prodv(u1), eval(a), eval(x)); assert(rm(rm(c, i), rm(e, f)) == rm(rm(c, e), rm(i, f))) by { broadcast use g_ac; } assert(rm(prodv(t1), 1real) == prodv(t1)) by { broadcast use g_ac; } } }
        else { assert(u =~= u1); if x is Integer { assert(t =~= t1.push(x)); if nrat(s) == s.len() && all_good(s) { let (c, e, i) = (prodv(d), prodv(u1), eval(x)); assert(rm(rm(c, i), e) == rm(rm(c, e), i)) by { broadcast use g_ac; } } } else { assert(t =~= t1); } }
    }
}
/// the fraction that came of it
pub broadcast proof fn b_rfrom(n: int, d: int, q: Rational, v: real) ensures #![trigger rfrom(n, d, q), rm(v, ir(d))] rfrom(n, d, q) && d != 0 && rm(v, ir(d)) == ir(n) ==> rv(q) == v { if d != 0 && rm(v, ir(d)) == ir(n) { lem_rat_is(n, d, v); } }
pub broadcast proof fn b_rfrom_inv(d: int, q: Rational) ensures #![trigger rfrom(1, d, q)] rfrom(1, d, q) && d != 0 ==> rv(q) == rpow(ir(d), ir(-1)) { if d != 0 { b_inv(ir(d)); } }
// ---- lists of fractions
pub open spec fn sumq(s: Seq<Rational>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sumq(s.drop_last()) + rv(s.last()) } }
pub open spec fn prodq(s: Seq<Rational>) -> real decreases s.len() { if s.len() == 0 { 1real } else { rm(prodq(s.drop_last()), rv(s.last())) } }
pub open spec fn hasq(p: int, q: Rational) -> bool { if p == 0 { rd(q) != 0 } else { rpos(q) } }
#[verifier::opaque] pub open spec fn allq(p: int, s: Seq<Rational>) -> bool { forall|i: int| 0 <= i < s.len() ==> hasq(p, #[trigger] s[i]) }
pub broadcast proof fn b_allq_first(p: int, s: Seq<Rational>) requires s.len() > 0 ensures #![trigger allq(p, s), s.first()] #![trigger allq(p, s.drop_first())] allq(p, s) ==> allq(p, s.drop_first()) && hasq(p, s.first()) { reveal(allq); if allq(p, s) { assert(hasq(p, s[0])); assert forall|i: int| 0 <= i < s.drop_first().len() implies hasq(p, #[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); } } }
pub proof fn lem_q_first(s: Seq<Rational>) requires s.len() > 0 ensures rm(rv(s.first()), prodq(s.drop_first())) == prodq(s), sumq(s) == rv(s.first()) + sumq(s.drop_first()) decreases s.len() { broadcast use g_ac;
    if s.len() == 1 { assert(s.drop_first() =~= Seq::empty()); assert(s.drop_last() =~= Seq::empty()); } else { assert(s.drop_first().drop_last() =~= s.drop_last().drop_first()); lem_q_first(s.drop_last()); assert(s.drop_last().first() == s.first()); assert(s.drop_first().last() == s.last()); }
}
pub broadcast proof fn b_sumq_first(s: Seq<Rational>) requires s.len() > 0 ensures #![trigger sumq(s.drop_first())] sumq(s) == rv(s.first()) + sumq(s.drop_first()) { lem_q_first(s); }
pub broadcast proof fn b_prodq_first(s: Seq<Rational>, a: real) requires s.len() > 0 ensures #![trigger rm(rm(a, rv(s.first())), prodq(s.drop_first()))] rm(rm(a, rv(s.first())), prodq(s.drop_first())) == rm(a, prodq(s)) { lem_q_first(s); b_rm_assoc(a, rv(s.first()), prodq(s.drop_first())); }
#[verifier::opaque] pub open spec fn all_rat(s: Seq<Expression>) -> bool { forall|i: int| 0 <= i < s.len() ==> rlike(#[trigger] s[i]) }
pub broadcast proof fn b_all_rat(s: Seq<Expression>, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && q(#[trigger] s[i]) ==> rlike(s[i]) ensures #![trigger all_rat(s.filter(q))] all_rat(s.filter(q)) decreases s.len() {
    reveal(all_rat); reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && q(#[trigger] d[i]) implies rlike(d[i]) by { assert(s[i] == d[i]); } b_all_rat(d, q); assert(s[s.len() - 1] == s.last()); }
}
pub broadcast proof fn b_rat_at(s: Seq<Expression>, q: spec_fn(Expression) -> bool, i: int) requires forall|i: int| 0 <= i < s.len() && q(#[trigger] s[i]) ==> rlike(s[i]) ensures #![trigger s.filter(q)[i]] 0 <= i < s.filter(q).len() ==> rlike(s.filter(q)[i]) && (allp(Pr::Shp, s) ==> shp(s.filter(q)[i])) {
    b_all_rat(s, q); reveal(all_rat); b_all_filter(Pr::Shp, s, q); if 0 <= i < s.filter(q).len() { b_all_at(Pr::Shp, s.filter(q), i); }
}
/// the fractions read off a list
pub broadcast proof fn b_map_rat(s: Seq<Expression>, t: Seq<Rational>) requires forall|i: int| 0 <= i < s.len() ==> (rlike(#[trigger] s[i]) && shp(s[i]) ==> qfe(s[i], t[i])) ensures #![trigger mapped__(s, t)]
    mapped__(s, t) && all_rat(s) && allp(Pr::Shp, s) ==> allq(0, t),
    mapped__(s, t) && all_rat(s) && all_good(s) ==> sumq(t) == sumv(s) && prodq(t) == prodv(s),
    mapped__(s, t) && all_rat(s) && all_good(s) && allp(Pr::Spos, s) ==> allq(1, t)
    decreases s.len()
{
    reveal(allq); reveal(all_rat);
    if mapped__(s, t) && all_rat(s) && s.len() > 0 {
        let (d, e) = (s.drop_last(), t.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies (rlike(#[trigger] d[i]) && shp(d[i]) ==> qfe(d[i], e[i])) by { assert(d[i] == s[i] && e[i] == t[i]); }
        assert forall|i: int| 0 <= i < d.len() implies rlike(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        assert(mapped__(d, e)); b_map_rat(d, e); let n = s.len() - 1; assert(rlike(s[n])); assert(s.last() == s[n] && t.last() == t[n]);
        b_all_last(Pr::Shp, s); b_all_last(Pr::Dom, s); b_all_last(Pr::Spos, s);
        if allp(Pr::Shp, s) { assert forall|i: int| 0 <= i < t.len() implies hasq(0, #[trigger] t[i]) by { if i < n { assert(hasq(0, e[i])); assert(e[i] == t[i]); } } }
        if all_good(s) && allp(Pr::Spos, s) { assert forall|i: int| 0 <= i < t.len() implies hasq(1, #[trigger] t[i]) by { if i < n { assert(hasq(1, e[i])); assert(e[i] == t[i]); } } }
    }
}
pub broadcast group g_rat { b_rat_gcd, b_rat_one, b_radd, b_rsub, b_rmul, b_rdiv }
pub broadcast group g_qfe { b_prodi_first, b_alli_first, b_prodi_int, b_rat_split, b_rfrom, b_rfrom_inv }
pub broadcast group g_qlist { b_allq_first, b_sumq_first, b_prodq_first, b_all_rat, b_map_rat, b_rat_split }
pub proof fn vacuity_rats() ensures false { broadcast use {g_rat, g_qfe, g_qlist, g_all, b_diffs}; }

impl ProdV for ItO<Symbol<BigInt>> { open spec fn pv(self) -> real { prodi(self.g@) } }
pub trait FrV: Sized { spec fn nz(self) -> bool; spec fn ps(self) -> bool; }
impl FrV for ItO<Symbol<BigInt>> { open spec fn nz(self) -> bool { alli(0, self.g@) } open spec fn ps(self) -> bool { alli(1, self.g@) } }
impl FrV for Symbol<BigInt> { open spec fn nz(self) -> bool { self.data.g@ != 0 } open spec fn ps(self) -> bool { self.data.g@ > 0 } }

impl SumV for Rational { open spec fn sv(self) -> real { rv(self) } }
impl ProdV for Rational { open spec fn pv(self) -> real { rv(self) } }
impl SumV for ItO<Rational> { open spec fn sv(self) -> real { sumq(self.g@) } }
impl ProdV for ItO<Rational> { open spec fn pv(self) -> real { prodq(self.g@) } }
pub trait QV: Sized { spec fn qd(self) -> bool; spec fn qp(self) -> bool; spec fn qn(self) -> bool;  spec fn ql(self) -> bool; }
impl QV for Rational { open spec fn qd(self) -> bool { rd(self) != 0 } open spec fn qp(self) -> bool { rpos(self) } open spec fn qn(self) -> bool { rnn(self) } open spec fn ql(self) -> bool { true } }
impl QV for ItO<Rational> { open spec fn qd(self) -> bool { allq(0, self.g@) } open spec fn qp(self) -> bool { allq(1, self.g@) } open spec fn qn(self) -> bool { allq(1, self.g@) } open spec fn ql(self) -> bool { true } }
impl QV for ItO<Expression> { open spec fn qd(self) -> bool { true } open spec fn qp(self) -> bool { true } open spec fn qn(self) -> bool { true } open spec fn ql(self) -> bool { forall|i: int| 0 <= i < self.g@.len() ==> rlike(#[trigger] self.g@[i]) && shp(self.g@[i]) } }
impl QV for It<Expression> { open spec fn qd(self) -> bool { true } open spec fn qp(self) -> bool { true } open spec fn qn(self) -> bool { true } open spec fn ql(self) -> bool { forall|i: int| 0 <= i < self.g@.len() ==> rlike(#[trigger] self.g@[i]) && shp(self.g@[i]) } }
