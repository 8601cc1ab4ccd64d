// ===================== what a rewriting keeps =====================
pub open spec fn keep(e: Expression, r: Expression) -> bool {
    &&& good(e) ==> good(r) && eval(r) == eval(e)
    &&& good(e) && spos(e) ==> spos(r)
    &&& shp(e) ==> shp(r)
    &&& e is Integer ==> r is Integer
}
/// item by item
pub broadcast proof fn b_keep_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() ==> keep(#[trigger] s[i], t[i]) ensures #![trigger mapped__(s, t)]
    mapped__(s, t) && all_good(s) ==> all_good(t) && sumv(t) == sumv(s) && prodv(t) == prodv(s),
    mapped__(s, t) && allp(Pr::Shp, s) ==> allp(Pr::Shp, t),
    mapped__(s, t) && all_good(s) && allp(Pr::Spos, s) ==> allp(Pr::Spos, t),
    mapped__(s, t) && allp(Pr::Int, s) ==> allp(Pr::Int, t)
    decreases s.len()
{
    broadcast use b_all_last, b_all_none;
    if mapped__(s, t) && s.len() > 0 {
        let (d, e) = (s.drop_last(), t.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies keep(#[trigger] d[i], e[i]) by { assert(d[i] == s[i] && e[i] == t[i]); }
        assert(mapped__(d, e)); b_keep_map(d, e); assert(keep(s[s.len() - 1], t[t.len() - 1])); assert(s.last() == s[s.len() - 1] && t.last() == t[t.len() - 1]);
    }
}
pub broadcast proof fn b_shp_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && shp(#[trigger] s[i]) ==> shp(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && allp(Pr::Shp, s) ==> allp(Pr::Shp, t) {
    reveal(allp); if mapped__(s, t) && allp(Pr::Shp, s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Shp, #[trigger] t[i]) by { assert(holds(Pr::Shp, s[i])); } }
}
/// a power of what has been rewritten
pub broadcast proof fn b_keep_pow(b: Expression, b2: Expression, m: Expression, m2: Expression, r: Expression) ensures #![trigger keep(b, b2), keep(m, m2), pwr(b2, m2, r)]
    good(b) && good(m) && pdom(b, m) && keep(b, b2) && keep(m, m2) && pwr(b2, m2, r) ==> good(r) && eval(r) == rpow(eval(b), eval(m)) && (spos(b) ==> spos(r)) {}
pub broadcast proof fn b_keep_log(b: Expression, b2: Expression, m: Expression, m2: Expression, r: Expression) ensures #![trigger keep(b, b2), keep(m, m2), lgr(b2, m2, r)]
    good(b) && good(m) && ldom(b, m) && keep(b, b2) && keep(m, m2) && lgr(b2, m2, r) ==> good(r) && eval(r) == rlog(eval(b), eval(m)) {}
/// a power in two steps, what is reached first rewritten
pub broadcast proof fn b_keep_split(b: Expression, x: Expression, q: Expression, q2: Expression, y: Expression, r: Expression) ensures #![trigger pwr(b, x, q), keep(q, q2), pwr(q2, y, r)] good(b) && spos(b) && good(x) && good(y) && pwr(b, x, q) && keep(q, q2) && pwr(q2, y, r) ==> good(r) && spos(r) && eval(r) == rpow(eval(b), rm(eval(x), eval(y))) { b_pow_split(b, x, q2, y, r); }
/// what is left to visit, times a number
pub broadcast proof fn b_rm_first(s: Seq<Expression>, w: real) requires s.len() > 0 ensures #![trigger rm(sumv(s.drop_first()), w)] rm(sumv(s), w) == rm(eval(s.first()), w) + rm(sumv(s.drop_first()), w) { b_sum_first(s); lem_rm_dist(w, eval(s.first()), sumv(s.drop_first())); }
/// what has been taken up, times what is left to visit
pub broadcast proof fn b_rm_prod_first(s: Seq<Expression>, a: real) requires s.len() > 0 ensures #![trigger rm(rm(a, eval(s.first())), prodv(s.drop_first()))] rm(rm(a, eval(s.first())), prodv(s.drop_first())) == rm(a, prodv(s)) { b_prod_first(s); b_rm_assoc(a, eval(s.first()), prodv(s.drop_first())); }
/// a number times itself, so many times
pub open spec fn rpn(a: real, i: int) -> real { if i == 0 { 1real } else { rpow(a, ir(i)) } }
pub broadcast proof fn b_rpn(a: real, i: int) ensures #![trigger rm(rpn(a, i), a)] i >= 0 ==> rm(rpn(a, i), a) == rpn(a, i + 1) {
    broadcast use b_rm_unit, b_rm_comm, b_rpow_unit;
    if i == 0 { assert(ir(1) == 1real); } else if i > 0 { lem_rpow_add_int(a, i, 1); assert(ir(1) == 1real); if a == 0real { axiom_rpow_int(a, i + 1); axiom_rpow_int(a, i); } }
}
/// the inverse of a power
pub broadcast proof fn b_rpn_inv(a: real, i: int) ensures #![trigger rpow(rpn(a, i), ir(-1))] i > 0 && a != 0real ==> rpow(rpn(a, i), ir(-1)) == rpow(a, ir(-i)) && rpn(a, i) != 0real { if i > 0 && a != 0real { b_rpow_rpow_int(a, i, -1); axiom_rpow_int(a, i); assert(i * -1 == -i); } }
pub broadcast proof fn b_rpn_nz(a: real, i: int) ensures #![trigger rpn(a, i)] i >= 0 && a != 0real ==> rpn(a, i) != 0real { if i > 0 && a != 0real { axiom_rpow_int(a, i); } }
pub broadcast group g_rpn { b_rpn_nz, b_rpn, b_rpn_inv }
// ---- inverses
pub open spec fn ivo(e: Expression, r: Expression) -> bool {
    &&& good(e) ==> good(r) && rm(eval(r), eval(e)) == 1real
    &&& good(e) && spos(e) ==> spos(r)
    &&& shp(e) ==> shp(r)
}
pub broadcast proof fn b_ivo(d: Expression, e: Expression, r: Expression) requires d is Power ensures #![trigger pwr(*d->Power_0.argument, e, r)] ({ let m = *d->Power_0.modifier; pwr(*d->Power_0.argument, e, r) && (good(m) ==> good(e) && eval(e) == -eval(m)) && (shp(m) ==> shp(e)) && (m is Integer ==> e is Integer) ==> ((m is Integer ==> int_of(m) < 0) ==> ivo(d, r)) }) {
    let (a, m) = (*d->Power_0.argument, *d->Power_0.modifier); broadcast use b_power_node, b_rm_comm, b_rm_unit;
    if good(d) && good(e) && eval(e) == -eval(m) && pwr(a, e, r) && (m is Integer ==> e is Integer && int_of(m) < 0) {
        if spos(a) { b_spos(a); lem_rpow_add(eval(a), eval(m), eval(e)); b_rpow_unit(eval(a), 0real); assert(eval(m) + eval(e) == 0real); assert(pdom(a, e)); }
        else { let n = int_of(m); assert(ir(int_of(e)) == ir(-n)); assert(eval(a) != 0real); lem_rpow_add_int(eval(a), n, -n); assert(ir(n + -n) == 0real); b_rpow_unit(eval(a), 0real); }
        assert(pdom(a, e)); assert(good(a)); assert(good(r)); assert(eval(r) == rpow(eval(a), eval(e)));
        assert(eval(d) == rpow(eval(a), eval(m)));
        assert(rm(eval(r), eval(d)) == 1real);
        assert(spos(d) ==> spos(r));
    }
}
pub broadcast proof fn b_ivo_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() ==> ivo(#[trigger] s[i], t[i]) ensures #![trigger mapped__(s, t)]
    mapped__(s, t) && all_good(s) ==> all_good(t) && rm(prodv(t), prodv(s)) == 1real,
    mapped__(s, t) && all_good(s) && allp(Pr::Spos, s) ==> allp(Pr::Spos, t),
    mapped__(s, t) && allp(Pr::Shp, s) ==> allp(Pr::Shp, t)
    decreases s.len()
{
    broadcast use b_all_last, b_all_none, b_rm_unit;
    if mapped__(s, t) && s.len() > 0 {
        let (d, e) = (s.drop_last(), t.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies ivo(#[trigger] d[i], e[i]) by { assert(d[i] == s[i] && e[i] == t[i]); }
        assert(mapped__(d, e)); b_ivo_map(d, e); assert(ivo(s[s.len() - 1], t[t.len() - 1])); assert(s.last() == s[s.len() - 1] && t.last() == t[t.len() - 1]);
        if all_good(s) { let (a, b, x, y) = (prodv(e), prodv(d), eval(t.last()), eval(s.last())); assert(rm(rm(a, x), rm(b, y)) == rm(rm(a, b), rm(x, y))) by { broadcast use g_ac; } }
    }
}
/// every choice has what it was chosen for
pub broadcast proof fn b_filter_each(s: Seq<Expression>, p: spec_fn(Expression) -> bool, i: int) requires 0 <= i < s.filter(p).len() ensures #![trigger s.filter(p)[i]] p(s.filter(p)[i]) { s.filter_lemma(p); }
/// the inverse of the inverses
pub broadcast proof fn b_inv_inv(a: real, b: real) ensures #![trigger rm(a, b), rpow(a, ir(-1))] rm(a, b) == 1real ==> a != 0real && rpow(a, ir(-1)) == b { if rm(a, b) == 1real { broadcast use b_rm_unit, b_rm_comm; assert(a != 0real); lem_inv(a); lem_rm_cancel(rpow(a, ir(-1)), b, a); } }
pub broadcast proof fn b_one_nz(a: real, b: real) ensures #![trigger rm(a, b)] rm(a, b) == 1real ==> a != 0real && b != 0real { broadcast use b_rm_unit, b_rm_comm; }
pub broadcast group g_ivo { b_ivo, b_ivo_map, b_filter_each, b_inv_inv, b_one_nz }
pub broadcast group g_keep { b_keep_map, b_keep_pow, b_keep_log, b_keep_split }
pub proof fn vacuity_keep() ensures false { broadcast use {g_keep, g_all, g_pow, g_ivo, g_rpn}; }
