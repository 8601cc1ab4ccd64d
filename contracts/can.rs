// ===================== canonical form =====================
/// Can: canonical. SumItem, ProdItem: may stand in a canonical sum, product. SumPart, ProdPart: so too, and not a constant. Lit: a constant.
pub enum Pr { Can, SumItem, ProdItem, SumPart, ProdPart, Lit, NzInt, Unit }
pub open spec fn sum_item(e: Expression) -> bool { !(e is Addition) && (e is Integer ==> e->Integer_0.data.g@ != 0) && (e is Real ==> e->Real_0.data.g@ != 0real) }
pub open spec fn prod_item(e: Expression) -> bool { !(e is Multiplication) && (e is Integer ==> e->Integer_0.data.g@ != 0 && e->Integer_0.data.g@ != 1) && (e is Real ==> e->Real_0.data.g@ != 0real && e->Real_0.data.g@ != 1real) }
pub open spec fn unit(i: int) -> bool { i == 1 || i == -1 }
pub open spec fn lit_e(e: Expression) -> bool { e is Integer || e is Real }
pub open spec fn holds(p: Pr, e: Expression) -> bool {
    match p { Pr::Can => can(e), Pr::SumItem => can(e) && sum_item(e), Pr::ProdItem => can(e) && prod_item(e), Pr::SumPart => can(e) && !(e is Addition) && !lit_e(e), Pr::ProdPart => can(e) && !(e is Multiplication) && !lit_e(e), Pr::Lit => lit_e(e), Pr::NzInt => e is Integer && sum_item(e), Pr::Unit => lit_e(e) && sum_item(e) && (e is Integer ==> unit(e->Integer_0.data.g@)) }

}
pub open spec fn can(e: Expression) -> bool decreases e, 0int {
    match e {
        Expression::Multiplication(a) => a.items.s@.len() >= 2 && ni(a.items.s@) <= 1 && nr(a.items.s@) <= 1 && all_can(Op::Prod, a.items.s@),
        Expression::Addition(a) => a.items.s@.len() >= 2 && ni(a.items.s@) <= 1 && nr(a.items.s@) <= 1 && all_can(Op::Sum, a.items.s@),
        Expression::Power(p) => can(*p.argument) && can(*p.modifier) && base_ok(*p.argument) && int_power_ok(*p.argument, *p.modifier),
        Expression::Logarithm(p) => can(*p.argument) && can(*p.modifier),
        Expression::Sine(p) => can(*p.argument),
        Expression::Cossine(p) => can(*p.argument),
        _ => true,
    }
}
/// the base of a power is neither a power nor nothing
pub open spec fn base_ok(b: Expression) -> bool { !(b is Power) && (b is Integer ==> b->Integer_0.data.g@ != 0) && (b is Real ==> b->Real_0.data.g@ != 0real) }
/// an integer to the power of an integer is kept as a reciprocal only
pub open spec fn int_power_ok(b: Expression, m: Expression) -> bool { b is Integer && m is Integer ==> m->Integer_0.data.g@ == -1 }
#[verifier::opaque] pub open spec fn all_can(o: Op, s: Seq<Expression>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> can(#[trigger] s[i]) && (match o { Op::Sum => sum_item(s[i]), Op::Prod => prod_item(s[i]) }) }
/// how many integers and real constants there are
pub open spec fn ni(s: Seq<Expression>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ni(s.drop_last()) + (if s.last() is Integer { 1int } else { 0 }) } }
pub open spec fn nr(s: Seq<Expression>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nr(s.drop_last()) + (if s.last() is Real { 1int } else { 0 }) } }
pub open spec fn i1(e: Expression) -> int { if e is Integer { 1 } else { 0 } }
pub open spec fn r1(e: Expression) -> int { if e is Real { 1 } else { 0 } }
pub broadcast proof fn b_n_push(s: Seq<Expression>, x: Expression) ensures #![trigger ni(s.push(x))] #![trigger nr(s.push(x))] ni(s.push(x)) == ni(s) + i1(x), nr(s.push(x)) == nr(s) + r1(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_n_cat(s: Seq<Expression>, t: Seq<Expression>) ensures ni(s + t) == ni(s) + ni(t), nr(s + t) == nr(s) + nr(t) decreases t.len() { if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); lem_n_cat(s, t.drop_last()); } }
pub proof fn lem_n_remove(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures ni(s) == ni(s.remove(i)) + i1(s[i]), nr(s) == nr(s.remove(i)) + r1(s[i]) {
    assert(s =~= s.take(i).push(s[i]) + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1)); lem_n_cat(s.take(i).push(s[i]), s.skip(i + 1)); lem_n_cat(s.take(i), s.skip(i + 1)); b_n_push(s.take(i), s[i]);
}
pub proof fn lem_n_perm(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures ni(s) == ni(t), nr(s) == nr(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)) by { assert(s[s.len() - 1] == x); } assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let i = t.index_of(x); lem_n_remove(t, i); assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x)); assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x)); lem_n_perm(s.drop_last(), t.remove(i));
    }
}
pub broadcast proof fn b_n_sorted(s: Seq<Expression>) ensures #![trigger ni(sorted__(s))] #![trigger nr(sorted__(s))] ni(sorted__(s)) == ni(s), nr(sorted__(s)) == nr(s), sorted__(s).len() == s.len() { axiom_sorted(s); lem_n_perm(sorted__(s), s); s.to_multiset_ensures(); sorted__(s).to_multiset_ensures(); }
pub broadcast proof fn b_parts(p: Pr, s: Seq<Expression>) ensures #![trigger allp(p, s)] p is SumPart && allp(p, s) ==> ni(s) == 0 && nr(s) == 0 && allp(Pr::SumItem, s), p is ProdPart && allp(p, s) ==> ni(s) == 0 && nr(s) == 0 && allp(Pr::ProdItem, s) decreases s.len() {
    if (p is SumPart || p is ProdPart) && allp(p, s) { reveal(allp); if s.len() > 0 { b_all_last(p, s); b_parts(p, s.drop_last()); } 
        if p is SumPart { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::SumItem, #[trigger] s[i]) by { assert(holds(p, s[i])); } } else { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::ProdItem, #[trigger] s[i]) by { assert(holds(p, s[i])); } } }
}
pub broadcast proof fn b_items(p: Pr, s: Seq<Expression>) ensures #![trigger allp(p, s)] allp(p, s) ==> allp(Pr::Can, s) { if allp(p, s) { reveal(allp); assert forall|i: int| 0 <= i < s.len() implies holds(Pr::Can, #[trigger] s[i]) by { assert(holds(p, s[i])); } } }
pub broadcast proof fn b_can_all(o: Op, s: Seq<Expression>) ensures #![trigger all_can(o, s)] all_can(o, s) == (match o { Op::Sum => allp(Pr::SumItem, s), Op::Prod => allp(Pr::ProdItem, s) }) { reveal(all_can); reveal(allp);
    let p = match o { Op::Sum => Pr::SumItem, Op::Prod => Pr::ProdItem }; assert(allp(p, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(p, #[trigger] s[i])); assert(all_can(o, s) ==> forall|i: int| 0 <= i < s.len() ==> can(#[trigger] s[i]) && (match o { Op::Sum => sum_item(s[i]), Op::Prod => prod_item(s[i]) })); }
pub broadcast proof fn b_can_mul(a: CommutativeAssociation) ensures #![trigger can(Expression::Multiplication(a))] can(Expression::Multiplication(a)) == (a.items.s@.len() >= 2 && ni(a.items.s@) <= 1 && nr(a.items.s@) <= 1 && allp(Pr::ProdItem, a.items.s@)) { reveal(all_can); b_can_all(Op::Prod, a.items.s@); }
pub broadcast proof fn b_can_add(a: CommutativeAssociation) ensures #![trigger can(Expression::Addition(a))] can(Expression::Addition(a)) == (a.items.s@.len() >= 2 && ni(a.items.s@) <= 1 && nr(a.items.s@) <= 1 && allp(Pr::SumItem, a.items.s@)) { reveal(all_can); b_can_all(Op::Sum, a.items.s@); }
pub broadcast proof fn b_can_pow(p: AssociativeOperation) ensures #![trigger can(Expression::Power(p))] can(Expression::Power(p)) == (can(*p.argument) && can(*p.modifier) && base_ok(*p.argument) && int_power_ok(*p.argument, *p.modifier)) {}
pub broadcast proof fn b_can_log(p: AssociativeOperation) ensures #![trigger can(Expression::Logarithm(p))] can(Expression::Logarithm(p)) == (can(*p.argument) && can(*p.modifier)) {}
pub broadcast proof fn b_can_node(e: Expression) ensures #![trigger can(e)] can(e) ==> (e is Multiplication ==> allp(Pr::ProdItem, e->Multiplication_0.items.s@)) && (e is Addition ==> allp(Pr::SumItem, e->Addition_0.items.s@)), lit_e(e) ==> can(e) { reveal(all_can); if e is Multiplication { b_can_all(Op::Prod, e->Multiplication_0.items.s@); } if e is Addition { b_can_all(Op::Sum, e->Addition_0.items.s@); } }
pub broadcast proof fn b_can_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && can(#[trigger] s[i]) ==> can(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && allp(Pr::Can, s) ==> allp(Pr::Can, t) {
    reveal(allp); if mapped__(s, t) && allp(Pr::Can, s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Can, #[trigger] t[i]) by { assert(holds(Pr::Can, s[i])); } }
}
pub broadcast proof fn b_ipow_nz(b: int, n: int) ensures #![trigger ipow(b, n)] b != 0 ==> ipow(b, n) != 0 decreases n { if n > 0 && b != 0 { b_ipow_nz(b, n - 1); assert(b * ipow(b, n - 1) != 0) by(nonlinear_arith) requires b != 0, ipow(b, n - 1) != 0; } }
pub broadcast group g_all { b_can_mul, b_can_add, b_can_pow, b_can_log, b_can_node, b_parts, b_items, b_n_push, b_n_sorted, b_filter_at, b_filter_has, b_all_push, b_all_none, b_all_last, b_all_cat, b_all_at, b_all_sorted, b_all_any, b_all_filter, b_all_filter_in }
// ---- the real constants of a product, together
pub open spec fn fx(e: Expression) -> real decreases e, 1int { match e { Expression::Multiplication(a) => fxs(a.items.s@), Expression::Real(x) => if x.data.g@ < 0real { -x.data.g@ } else { x.data.g@ }, _ => 1real } }
pub open spec fn fxs(s: Seq<Expression>) -> real decreases s, s.len() { if s.len() == 0 { 1real } else { rm(fxs(s.drop_last()), fx(s.last())) } }
pub broadcast proof fn b_fx_push(s: Seq<Expression>, x: Expression) ensures #![trigger fxs(s.push(x))] fxs(s.push(x)) == rm(fxs(s), fx(x)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_fx_last(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger fxs(s.drop_last())] fxs(s) == rm(fxs(s.drop_last()), fx(s.last())) {}
pub broadcast proof fn b_fx_none(s: Seq<Expression>) requires s.len() == 0 ensures #![trigger fxs(s)] fxs(s) == 1real {}
pub broadcast proof fn b_fx_cat(s: Seq<Expression>, t: Seq<Expression>) ensures #![trigger fxs(s + t)] fxs(s + t) == rm(fxs(s), fxs(t)) decreases t.len() { if t.len() == 0 { assert(s + t =~= s); b_rm_unit(fxs(t), fxs(s)); b_rm_comm(fxs(s), fxs(t)); } else { let d = t.drop_last(); assert((s + t).drop_last() =~= s + d); b_fx_cat(s, d); b_rm_assoc(fxs(s), fxs(d), fx(t.last())); } }
pub proof fn lem_fx_remove(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures fxs(s) == rm(fxs(s.remove(i)), fx(s[i])) {
    assert(s =~= s.take(i).push(s[i]) + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1)); b_fx_cat(s.take(i).push(s[i]), s.skip(i + 1)); b_fx_cat(s.take(i), s.skip(i + 1)); b_fx_push(s.take(i), s[i]); b_rm_swap(fxs(s.take(i)), fx(s[i]), fxs(s.skip(i + 1)));
}
pub proof fn lem_fx_perm(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures fxs(s) == fxs(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)) by { assert(s[s.len() - 1] == x); } assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let i = t.index_of(x); lem_fx_remove(t, i); assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x)); assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x)); lem_fx_perm(s.drop_last(), t.remove(i));
    }
}
pub broadcast proof fn b_fx_sorted(s: Seq<Expression>) ensures #![trigger fxs(sorted__(s))] fxs(sorted__(s)) == fxs(s) { axiom_sorted(s); lem_fx_perm(sorted__(s), s); }
pub broadcast proof fn b_fx_any(s: Seq<Expression>) ensures #![trigger fxs(anyorder__(s))] fxs(anyorder__(s)) == fxs(s) { axiom_anyorder(s); lem_fx_perm(anyorder__(s), s); }
pub broadcast proof fn b_fx_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) ==> fx(s[i]) == 1real ensures #![trigger fxs(s.filter(p))] fxs(s.filter(p)) == fxs(s) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1); broadcast use {b_rm_unit, b_rm_comm};
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && !p(#[trigger] d[i]) implies fx(d[i]) == 1real by { assert(d[i] == s[i]); } b_fx_filter(d, p); assert(s[s.len() - 1] == s.last()); if p(s.last()) { b_fx_push(d.filter(p), s.last()); } } else { assert(s.filter(p) =~= s); }
}
pub broadcast proof fn b_fx_parts(p: Pr, s: Seq<Expression>) ensures #![trigger allp(p, s)] p is ProdPart && allp(p, s) ==> fxs(s) == 1real decreases s.len() { if p is ProdPart && allp(p, s) && s.len() > 0 { b_all_last(p, s); b_fx_parts(p, s.drop_last()); b_rm_unit(fxs(s.drop_last()), fx(s.last())); } }
pub broadcast group g_fx { b_fx_push, b_fx_last, b_fx_none, b_fx_cat, b_fx_sorted, b_fx_any, b_fx_filter, b_fx_parts }
// ---- whether its constants are negative, together
pub open spec fn ng(e: Expression) -> bool decreases e, 1int { match e { Expression::Multiplication(a) => ngs(a.items.s@), Expression::Real(x) => x.data.g@ < 0real, Expression::Integer(n) => n.data.g@ < 0, _ => false } }
pub open spec fn ngs(s: Seq<Expression>) -> bool decreases s, s.len() { if s.len() == 0 { false } else { bxor(ngs(s.drop_last()), ng(s.last())) } }
pub broadcast proof fn b_ng_push(s: Seq<Expression>, x: Expression) ensures #![trigger ngs(s.push(x))] ngs(s.push(x)) == bxor(ngs(s), ng(x)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_ng_last(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger ngs(s.drop_last())] ngs(s) == bxor(ngs(s.drop_last()), ng(s.last())) {}
pub broadcast proof fn b_ng_none(s: Seq<Expression>) requires s.len() == 0 ensures #![trigger ngs(s)] ngs(s) == false {}
pub broadcast proof fn b_ng_cat(s: Seq<Expression>, t: Seq<Expression>) ensures #![trigger ngs(s + t)] ngs(s + t) == bxor(ngs(s), ngs(t)) decreases t.len() { if t.len() == 0 { assert(s + t =~= s);  } else { let d = t.drop_last(); assert((s + t).drop_last() =~= s + d); b_ng_cat(s, d);  } }
pub proof fn lem_ng_remove(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures ngs(s) == bxor(ngs(s.remove(i)), ng(s[i])) {
    assert(s =~= s.take(i).push(s[i]) + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1)); b_ng_cat(s.take(i).push(s[i]), s.skip(i + 1)); b_ng_cat(s.take(i), s.skip(i + 1)); b_ng_push(s.take(i), s[i]); 
}
pub proof fn lem_ng_perm(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures ngs(s) == ngs(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)) by { assert(s[s.len() - 1] == x); } assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let i = t.index_of(x); lem_ng_remove(t, i); assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x)); assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x)); lem_ng_perm(s.drop_last(), t.remove(i));
    }
}
pub broadcast proof fn b_ng_sorted(s: Seq<Expression>) ensures #![trigger ngs(sorted__(s))] ngs(sorted__(s)) == ngs(s) { axiom_sorted(s); lem_ng_perm(sorted__(s), s); }
pub broadcast proof fn b_ng_any(s: Seq<Expression>) ensures #![trigger ngs(anyorder__(s))] ngs(anyorder__(s)) == ngs(s) { axiom_anyorder(s); lem_ng_perm(anyorder__(s), s); }
pub broadcast proof fn b_ng_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) ==> ng(s[i]) == false ensures #![trigger ngs(s.filter(p))] ngs(s.filter(p)) == ngs(s) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1); 
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && !p(#[trigger] d[i]) implies ng(d[i]) == false by { assert(d[i] == s[i]); } b_ng_filter(d, p); assert(s[s.len() - 1] == s.last()); if p(s.last()) { b_ng_push(d.filter(p), s.last()); } } else { assert(s.filter(p) =~= s); }
}
pub broadcast proof fn b_ng_parts(p: Pr, s: Seq<Expression>) ensures #![trigger allp(p, s)] p is ProdPart && allp(p, s) ==> ngs(s) == false decreases s.len() { if p is ProdPart && allp(p, s) && s.len() > 0 { b_all_last(p, s); b_ng_parts(p, s.drop_last()); assert(ngs(s) == bxor(ngs(s.drop_last()), ng(s.last())));  } }
pub broadcast group g_ng { b_ng_push, b_ng_last, b_ng_none, b_ng_cat, b_ng_sorted, b_ng_any, b_ng_filter, b_ng_parts }
/// the opposite of an integer, of a real constant (as sums are given them)
pub open spec fn opp_real(s: Seq<Expression>) -> bool { allp(Pr::Unit, s) && ngs(s) && fxs(s) != 1real }
pub broadcast proof fn b_inz(a: int, b: int) ensures #![trigger big(a * b)] a != 0 && b != 0 ==> a * b != 0 && (a * b < 0) == bxor(a < 0, b < 0), unit(a) && unit(b) ==> unit(a * b) { assert(a == -1 ==> a * b == -b) by(nonlinear_arith); assert(a != 0 && b != 0 ==> a * b != 0 && (a * b < 0) == ((a < 0) != (b < 0))) by(nonlinear_arith); assert(a == 1 ==> a * b == b) by(nonlinear_arith); }
pub broadcast proof fn b_lg_one(a: real) ensures #![trigger lg(a)] a > 0real && lg(a) == 0real ==> a == 1real { lem_lg_one(); if a > 0real && lg(a) == 0real { lem_lg_inj(a, 1real); } }
// ---- tables
// ---- the tables of terms and of factors
pub type msT = (Expression, Symbol<BigInt>);
pub type mpT = (Expression, Expression);
#[verifier::opaque] pub open spec fn ms_can(s: Seq<msT>) -> bool { forall|i: int| 0 <= i < s.len() ==> can((#[trigger] s[i]).0) }
#[verifier::opaque] pub open spec fn mp_can(s: Seq<mpT>) -> bool { forall|i: int| 0 <= i < s.len() ==> can((#[trigger] s[i]).0) && can(s[i].1) }
pub broadcast proof fn b_msn_none(s: Seq<msT>) requires s.len() == 0 ensures #![trigger ms_can(s)] ms_can(s) { reveal(ms_can); }
pub broadcast proof fn b_mpn_none(s: Seq<mpT>) requires s.len() == 0 ensures #![trigger mp_can(s)] mp_can(s) { reveal(mp_can); }
pub broadcast proof fn b_msn_push(s: Seq<msT>, y: msT) ensures #![trigger ms_can(s.push(y))] ms_can(s) && can(y.0) ==> ms_can(s.push(y)) { reveal(ms_can); }
pub broadcast proof fn b_mpn_push(s: Seq<mpT>, y: mpT) ensures #![trigger mp_can(s.push(y))] mp_can(s) && can(y.0) && can(y.1) ==> mp_can(s.push(y)) { reveal(mp_can); }
pub broadcast proof fn b_msn_remove(s: Seq<msT>, i: int) requires 0 <= i < s.len() ensures #![trigger ms_can(s), s.remove(i)] #![trigger ms_can(s.remove(i))] ms_can(s) ==> ms_can(s.remove(i)) && can(s[i].0) { reveal(ms_can); }
pub broadcast proof fn b_mpn_remove(s: Seq<mpT>, i: int) requires 0 <= i < s.len() ensures #![trigger mp_can(s), s.remove(i)] #![trigger mp_can(s.remove(i))] mp_can(s) ==> mp_can(s.remove(i)) && can(s[i].0) && can(s[i].1) { reveal(mp_can); }
pub broadcast proof fn b_msn_update(s: Seq<msT>, i: int, y: msT) requires 0 <= i < s.len() ensures #![trigger ms_can(s.update(i, y))] ms_can(s) && can(y.0) ==> ms_can(s.update(i, y)) { reveal(ms_can); }
pub broadcast proof fn b_mpn_update(s: Seq<mpT>, i: int, y: mpT) requires 0 <= i < s.len() ensures #![trigger mp_can(s.update(i, y))] mp_can(s) && can(y.0) && can(y.1) ==> mp_can(s.update(i, y)) { reveal(mp_can); }
pub broadcast proof fn b_msn_filter(s: Seq<msT>, p: spec_fn(msT) -> bool) ensures #![trigger ms_can(s.filter(p))] ms_can(s) ==> ms_can(s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1); if s.len() == 0 { assert(s.filter(p) =~= Seq::empty()); b_msn_none(s.filter(p)); }
    if s.len() > 0 && ms_can(s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_msn_remove(s, s.len() - 1); b_msn_filter(d, p); b_msn_push(d.filter(p), s.last()); } }
pub broadcast proof fn b_mpn_filter(s: Seq<mpT>, p: spec_fn(mpT) -> bool) ensures #![trigger mp_can(s.filter(p))] mp_can(s) ==> mp_can(s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1); if s.len() == 0 { assert(s.filter(p) =~= Seq::empty()); b_mpn_none(s.filter(p)); }
    if s.len() > 0 && mp_can(s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_mpn_remove(s, s.len() - 1); b_mpn_filter(d, p); b_mpn_push(d.filter(p), s.last()); } }
pub broadcast proof fn b_msn_map(s: Seq<msT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && can((#[trigger] s[i]).0) ==> can(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && ms_can(s) ==> allp(Pr::Can, t) {
    reveal(allp); reveal(ms_can); if mapped__(s, t) && ms_can(s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Can, #[trigger] t[i]) by { assert(can(s[i].0)); } }
}
pub broadcast proof fn b_mpn_map(s: Seq<mpT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && can((#[trigger] s[i]).0) && can(s[i].1) ==> can(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && mp_can(s) ==> allp(Pr::Can, t) {
    reveal(allp); reveal(mp_can); if mapped__(s, t) && mp_can(s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Can, #[trigger] t[i]) by { assert(can(s[i].0)); } }
}
pub broadcast group g_tab { b_msn_update, b_mpn_update, b_msn_none, b_msn_push, b_msn_remove, b_msn_filter, b_msn_map, b_mpn_none, b_mpn_push, b_mpn_remove, b_mpn_filter, b_mpn_map }
pub trait CaV: Sized { spec fn cs(self) -> bool; spec fn cp(self) -> bool; spec fn nx(self) -> bool; spec fn px(self) -> real; spec fn em(self) -> bool; spec fn zl(self) -> bool; spec fn ul(self) -> bool; spec fn ng(self) -> bool; }
impl CaV for Vec<Expression> { open spec fn cs(self) -> bool { allp(Pr::SumPart, self.g@) } open spec fn cp(self) -> bool { allp(Pr::ProdPart, self.g@) } open spec fn nx(self) -> bool { allp(Pr::Can, self.g@) } open spec fn px(self) -> real { fxs(self.g@) } open spec fn em(self) -> bool { self.g@.len() == 0 } open spec fn zl(self) -> bool { allp(Pr::NzInt, self.g@) } open spec fn ul(self) -> bool { allp(Pr::Unit, self.g@) } open spec fn ng(self) -> bool { ngs(self.g@) } }
impl CaV for Symbol<BigInt> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { self.data.g@ != 0 } open spec fn px(self) -> real { 1real } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { self.data.g@ != 0 } open spec fn ul(self) -> bool { unit(self.data.g@) } open spec fn ng(self) -> bool { self.data.g@ < 0 } }
impl CaV for Symbol<F64> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { self.data.g@ != 0real } open spec fn px(self) -> real { self.data.g@ } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { self.data.g@ == 1real } open spec fn ul(self) -> bool { self.data.g@ > 0real } open spec fn ng(self) -> bool { false } }
impl CaV for Expression { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { can(self) } open spec fn px(self) -> real { fx(self) } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { holds(Pr::NzInt, self) } open spec fn ul(self) -> bool { holds(Pr::Unit, self) } open spec fn ng(self) -> bool { ng(self) } }
impl CaV for It<Expression> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { allp(Pr::Can, self.g@) } open spec fn px(self) -> real { fxs(self.g@) } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { allp(Pr::NzInt, self.g@) } open spec fn ul(self) -> bool { allp(Pr::Unit, self.g@) } open spec fn ng(self) -> bool { ngs(self.g@) } }
impl CaV for ItO<Expression> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { allp(Pr::Can, self.g@) } open spec fn px(self) -> real { fxs(self.g@) } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { allp(Pr::NzInt, self.g@) } open spec fn ul(self) -> bool { allp(Pr::Unit, self.g@) } open spec fn ng(self) -> bool { ngs(self.g@) } }
impl CaV for HashMap<Expression, Symbol<BigInt>> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { ms_can(self.g@) } open spec fn px(self) -> real { 1real } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { true } open spec fn ul(self) -> bool { true } open spec fn ng(self) -> bool { false } }
impl CaV for HashMap<Expression, Expression> { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { mp_can(self.g@) } open spec fn px(self) -> real { 1real } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { true } open spec fn ul(self) -> bool { true } open spec fn ng(self) -> bool { false } }
impl CaV for isize { open spec fn cs(self) -> bool { true } open spec fn cp(self) -> bool { true } open spec fn nx(self) -> bool { true } open spec fn px(self) -> real { 1real } open spec fn em(self) -> bool { true } open spec fn zl(self) -> bool { true } open spec fn ul(self) -> bool { true } open spec fn ng(self) -> bool { false } }
pub proof fn vacuity_can() ensures false { broadcast use {g_all, b_all_first, b_can_map, g_fx, g_ng, g_tab, g_nf, g_nfp}; axiom_sorted_unique(Seq::empty(), Seq::empty()); axiom_lg(2real, 3real); }
