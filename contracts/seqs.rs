// ===================== sums and products over lists =====================
pub proof fn lem_sum_push(s: Seq<Expression>, x: Expression) ensures sumv(s.push(x)) == sumv(s) + eval(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_prod_push(s: Seq<Expression>, x: Expression) ensures prodv(s.push(x)) == rm(prodv(s), eval(x)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_sum_push(s: Seq<Expression>, x: Expression) ensures #[trigger] sumv(s.push(x)) == sumv(s) + eval(x) { lem_sum_push(s, x); }
pub broadcast proof fn b_prod_push(s: Seq<Expression>, x: Expression) ensures #[trigger] prodv(s.push(x)) == rm(prodv(s), eval(x)) { lem_prod_push(s, x); }
pub proof fn lem_one(x: Expression) ensures sumv(seq![x]) == eval(x), prodv(seq![x]) == eval(x), nint(seq![x]) == (if x is Integer { 1int } else { 0 }), nreal(seq![x]) == (if x is Real { 1int } else { 0 }) { broadcast use g_ac;
    assert(seq![x].drop_last() =~= Seq::empty()); assert(seq![x].last() == x); reveal_with_fuel(sumv, 2); reveal_with_fuel(prodv, 2); reveal_with_fuel(nint, 2); reveal_with_fuel(nreal, 2);
}
pub broadcast proof fn b_sum_last(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger sumv(s.drop_last())] sumv(s.drop_last()) == sumv(s) - eval(s.last()) {}
pub broadcast proof fn b_prod_last(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger prodv(s.drop_last())] prodv(s) == rm(prodv(s.drop_last()), eval(s.last())) {}
pub broadcast proof fn b_sum_cat(s: Seq<Expression>, t: Seq<Expression>) ensures #[trigger] sumv(s + t) == sumv(s) + sumv(t) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); b_sum_cat(s, t.drop_last()); }
}
pub broadcast proof fn b_prod_cat(s: Seq<Expression>, t: Seq<Expression>) ensures #[trigger] prodv(s + t) == rm(prodv(s), prodv(t)) decreases t.len() { broadcast use g_ac;
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last()); b_prod_cat(s, t.drop_last());
        let (a, b, c) = (prodv(s), prodv(t.drop_last()), eval(t.last()));
    }
}
pub broadcast proof fn b_sum_first(s: Seq<Expression>) requires s.len() > 0 ensures #[trigger] sumv(s.drop_first()) == sumv(s) - eval(s.first()) {
    assert(seq![s.first()] + s.drop_first() =~= s); b_sum_cat(seq![s.first()], s.drop_first()); lem_one(s.first());
}
pub broadcast proof fn b_prod_first(s: Seq<Expression>) requires s.len() > 0 ensures rm(eval(s.first()), #[trigger] prodv(s.drop_first())) == prodv(s) { broadcast use g_ac;
    assert(seq![s.first()] + s.drop_first() =~= s); b_prod_cat(seq![s.first()], s.drop_first()); lem_one(s.first());
}
pub proof fn lem_sum_swap(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures sumv(s.remove(i)) == sumv(s) - eval(s[i]), prodv(s) == rm(prodv(s.remove(i)), eval(s[i])) { broadcast use g_ac;
    assert(s =~= s.take(i) + seq![s[i]] + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1));
    b_sum_cat(s.take(i) + seq![s[i]], s.skip(i + 1)); b_sum_cat(s.take(i), seq![s[i]]); b_sum_cat(s.take(i), s.skip(i + 1));
    b_prod_cat(s.take(i) + seq![s[i]], s.skip(i + 1)); b_prod_cat(s.take(i), seq![s[i]]); b_prod_cat(s.take(i), s.skip(i + 1));
    lem_one(s[i]);
    let (a, b, c) = (prodv(s.take(i)), eval(s[i]), prodv(s.skip(i + 1)));
}
pub proof fn lem_perm(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures sumv(s) == sumv(t), prodv(s) == prodv(t), nint(s) == nint(t), nreal(s) == nreal(t), s.len() == t.len() decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x)) by { assert(s[s.len() - 1] == x); }
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let i = t.index_of(x);
        lem_sum_swap(t, i); lem_sum_swap(s, s.len() - 1); lem_cnt_remove(t, i);
        assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        lem_perm(s.drop_last(), t.remove(i));
    } else { assert(t.len() == 0); }
}
pub proof fn lem_cnt_cat(s: Seq<Expression>, t: Seq<Expression>) ensures nint(s + t) == nint(s) + nint(t), nreal(s + t) == nreal(s) + nreal(t) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); lem_cnt_cat(s, t.drop_last()); }
}
pub proof fn lem_cnt_remove(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures nint(s) == nint(s.remove(i)) + (if s[i] is Integer { 1int } else { 0 }), nreal(s) == nreal(s.remove(i)) + (if s[i] is Real { 1int } else { 0 }) {
    assert(s =~= s.take(i) + seq![s[i]] + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1));
    lem_cnt_cat(s.take(i) + seq![s[i]], s.skip(i + 1)); lem_cnt_cat(s.take(i), seq![s[i]]); lem_cnt_cat(s.take(i), s.skip(i + 1));
    lem_one(s[i]);
}
pub broadcast proof fn b_sum_sorted(s: Seq<Expression>) ensures #[trigger] sumv(sorted__(s)) == sumv(s) { axiom_sorted(s); lem_perm(sorted__(s), s); }
pub broadcast proof fn b_prod_sorted(s: Seq<Expression>) ensures #[trigger] prodv(sorted__(s)) == prodv(s) { axiom_sorted(s); lem_perm(sorted__(s), s); }
pub broadcast proof fn b_sum_any(s: Seq<Expression>) ensures #[trigger] sumv(anyorder__(s)) == sumv(s) { axiom_anyorder(s); lem_perm(anyorder__(s), s); }
pub broadcast proof fn b_prod_any(s: Seq<Expression>) ensures #[trigger] prodv(anyorder__(s)) == prodv(s) { axiom_anyorder(s); lem_perm(anyorder__(s), s); }
/// leaving out what counts for nothing
pub broadcast proof fn b_sum_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) ==> eval(s[i]) == 0real ensures #[trigger] sumv(s.filter(p)) == sumv(s) decreases s.len() {
    broadcast use g_ac; reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() && !p(#[trigger] s.drop_last()[i]) implies eval(s.drop_last()[i]) == 0real by { assert(s.drop_last()[i] == s[i]); } b_sum_filter(s.drop_last(), p); lem_sum_push(s.drop_last().filter(p), s.last()); assert(s[s.len() - 1] == s.last()); }
}
pub broadcast proof fn b_prod_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) ==> eval(s[i]) == 1real ensures #[trigger] prodv(s.filter(p)) == prodv(s) decreases s.len() {
    broadcast use g_ac; reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() && !p(#[trigger] s.drop_last()[i]) implies eval(s.drop_last()[i]) == 1real by { assert(s.drop_last()[i] == s[i]); } b_prod_filter(s.drop_last(), p); lem_prod_push(s.drop_last().filter(p), s.last()); assert(s[s.len() - 1] == s.last()); }
}
/// two complementary choices make up the whole
pub broadcast proof fn b_part(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) != q(s[i])
    ensures #![trigger sumv(s.filter(p)), sumv(s.filter(q))] #![trigger prodv(s.filter(p)), prodv(s.filter(q))] sumv(s) == sumv(s.filter(p)) + sumv(s.filter(q)), prodv(s) == rm(prodv(s.filter(p)), prodv(s.filter(q))) decreases s.len() {
    broadcast use g_ac; reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies p(#[trigger] d[i]) != q(d[i]) by { assert(d[i] == s[i]); }
        b_part(d, p, q); assert(s[s.len() - 1] == s.last());
        lem_sum_push(d.filter(p), s.last()); lem_sum_push(d.filter(q), s.last()); lem_prod_push(d.filter(p), s.last()); lem_prod_push(d.filter(q), s.last());
        let (a, b, c) = (prodv(d.filter(p)), prodv(d.filter(q)), eval(s.last()));
    }
}
/// a factor of nothing
pub broadcast proof fn b_prod_zero(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger prodv(s), s.last()] eval(s.last()) == 0real ==> prodv(s) == 0real { broadcast use g_ac; }
/// short lists
pub broadcast proof fn b_sum_small(s: Seq<Expression>) requires s.len() <= 1 ensures #[trigger] sumv(s) == if s.len() == 0 { 0real } else { eval(s[0]) } { if s.len() == 1 { assert(s =~= seq![s[0]]); lem_one(s[0]); } }
pub broadcast proof fn b_prod_small(s: Seq<Expression>) requires s.len() <= 1 ensures #[trigger] prodv(s) == if s.len() == 0 { 1real } else { eval(s[0]) } { if s.len() == 1 { assert(s =~= seq![s[0]]); lem_one(s[0]); } }
pub broadcast proof fn b_eval_sum(a: CommutativeAssociation) ensures #![trigger eval(Expression::Addition(a))] eval(Expression::Addition(a)) == sumv(a.items.s@) {}
pub broadcast proof fn b_eval_prod(a: CommutativeAssociation) ensures #![trigger eval(Expression::Multiplication(a))] eval(Expression::Multiplication(a)) == prodv(a.items.s@) {}
pub broadcast group g_sum { b_sum_push, b_sum_last, b_sum_cat, b_sum_first, b_sum_sorted, b_sum_any, b_sum_filter, b_part, b_sum_small, b_eval_sum, b_eval_prod }
pub broadcast group g_prod { b_prod_push, b_prod_last, b_prod_cat, b_prod_first, b_prod_sorted, b_prod_any, b_prod_filter, b_part, b_prod_small, b_prod_zero, b_eval_sum, b_eval_prod }
pub proof fn vacuity_value() ensures false { broadcast use {g_sum, g_prod}; }
