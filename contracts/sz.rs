// ===================== how large an expression is =====================
/// a real number is larger by one if it is negative: a product splits it into minus one and the rest
pub open spec fn rsz(x: F64) -> int { if flt(x.g@, FV::Zero(false)) { 2 } else { 1 } }
pub open spec fn esz(e: Expression) -> int decreases e {
    match e {
        Expression::Real(x) => rsz(x.data),
        Expression::Addition(a) => 1 + tsz(a.items.s@),
        Expression::Multiplication(a) => 1 + tsz(a.items.s@),
        Expression::Power(p) => 1 + esz(*p.argument) + esz(*p.modifier),
        Expression::Logarithm(p) => 1 + esz(*p.argument) + esz(*p.modifier),
        Expression::Sine(p) => 1 + esz(*p.argument),
        Expression::Cossine(p) => 1 + esz(*p.argument),
        _ => 1,
    }
}
pub open spec fn tsz(s: Seq<Expression>) -> int decreases s, s.len() { if s.len() == 0 { 0 } else { tsz(s.drop_last()) + esz(s.last()) } }
/// what a base counts for: constants nothing
pub open spec fn bm(e: Expression) -> int { if e is Integer || e is Real { 0 } else { esz(e) } }
/// a power with several exponents
pub open spec fn pm(e: Expression) -> int { if e is Power && *e->Power_0.modifier is Multiplication { 1 } else { 0 } }

pub broadcast proof fn b_esz(e: Expression) ensures #[trigger] esz(e) >= 1 decreases e, 0int, 0int {
    match e {
        Expression::Addition(a) => { b_tsz(a.items.s@); }
        Expression::Multiplication(a) => { b_tsz(a.items.s@); }
        Expression::Power(p) => { b_esz(*p.argument); b_esz(*p.modifier); }
        Expression::Logarithm(p) => { b_esz(*p.argument); b_esz(*p.modifier); }
        Expression::Sine(p) => { b_esz(*p.argument); }
        Expression::Cossine(p) => { b_esz(*p.argument); }
        _ => {}
    }
}
/// what it is, part by part
pub broadcast proof fn b_esz_is(e: Expression) ensures #![trigger esz(e)] match e { Expression::Addition(a) => esz(e) == 1 + tsz(a.items.s@), Expression::Multiplication(a) => esz(e) == 1 + tsz(a.items.s@), Expression::Power(p) => esz(e) == 1 + esz(*p.argument) + esz(*p.modifier), Expression::Logarithm(p) => esz(e) == 1 + esz(*p.argument) + esz(*p.modifier), _ => true } {}
pub broadcast proof fn b_tsz(s: Seq<Expression>) ensures #[trigger] tsz(s) >= s.len() decreases s, s.len(), 1int { if s.len() > 0 { b_tsz(s.drop_last()); b_esz(s.last()); } }
pub broadcast proof fn b_tsz_push(s: Seq<Expression>, x: Expression) ensures #[trigger] tsz(s.push(x)) == tsz(s) + esz(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_tsz_one(x: Expression) ensures tsz(seq![x]) == esz(x) { assert(seq![x].drop_last() =~= Seq::empty()); assert(seq![x].last() == x); reveal_with_fuel(tsz, 2); }
pub broadcast proof fn b_tsz_none(s: Seq<Expression>) requires s.len() == 0 ensures #[trigger] tsz(s) == 0 {}
pub broadcast proof fn b_tsz_last(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger tsz(s.drop_last())] #![trigger tsz(s), s.last()] tsz(s.drop_last()) == tsz(s) - esz(s.last()) {}
pub broadcast proof fn b_tsz_cat(s: Seq<Expression>, t: Seq<Expression>) ensures #[trigger] tsz(s + t) == tsz(s) + tsz(t) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); b_tsz_cat(s, t.drop_last()); }
}
pub broadcast proof fn b_tsz_first(s: Seq<Expression>) requires s.len() > 0 ensures #![trigger tsz(s.drop_first())] #![trigger tsz(s), s.first()] tsz(s.drop_first()) == tsz(s) - esz(s.first()) {
    assert(seq![s.first()] + s.drop_first() =~= s); b_tsz_cat(seq![s.first()], s.drop_first()); lem_tsz_one(s.first());
}
pub proof fn lem_tsz_swap(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures tsz(s.remove(i)) == tsz(s) - esz(s[i]) {
    assert(s =~= s.take(i) + seq![s[i]] + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1));
    b_tsz_cat(s.take(i) + seq![s[i]], s.skip(i + 1)); b_tsz_cat(s.take(i), seq![s[i]]); b_tsz_cat(s.take(i), s.skip(i + 1)); lem_tsz_one(s[i]);
}
/// an item is no larger than the list, and smaller than what has the list
pub broadcast proof fn b_tsz_at(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures #![trigger tsz(s), s[i]] esz(s[i]) <= tsz(s) { lem_tsz_swap(s, i); b_tsz(s.remove(i)); }
pub proof fn lem_tsz_perm(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures tsz(s) == tsz(t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last();
        assert(s.contains(x)) by { assert(s[s.len() - 1] == x); }
        assert(t.to_multiset().count(x) > 0);
        assert(t.contains(x));
        let i = t.index_of(x);
        lem_tsz_swap(t, i); lem_tsz_swap(s, s.len() - 1);
        assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        lem_tsz_perm(s.drop_last(), t.remove(i));
    } else { assert(t.len() == 0); }
}
pub broadcast proof fn b_tsz_sorted(s: Seq<Expression>) ensures #[trigger] tsz(sorted__(s)) == tsz(s) { axiom_sorted(s); lem_tsz_perm(sorted__(s), s); }
pub broadcast proof fn b_tsz_any(s: Seq<Expression>) ensures #[trigger] tsz(anyorder__(s)) == tsz(s) { axiom_anyorder(s); lem_tsz_perm(anyorder__(s), s); }
/// what is chosen is no larger
pub broadcast proof fn b_tsz_filter(s: Seq<Expression>, p: spec_fn(Expression) -> bool) ensures #![trigger s.filter(p)] tsz(s.filter(p)) <= tsz(s), s.filter(p).len() > 0 ==> esz(s.filter(p)[0]) <= tsz(s.filter(p)) && p(s.filter(p)[0]) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); b_tsz_filter(d, p); b_tsz_push(d.filter(p), s.last()); b_esz(s.last()); } else { assert(s.filter(p) =~= Seq::empty()); }
    if s.filter(p).len() > 0 { b_tsz_at(s.filter(p), 0); }
}
/// two choices with nothing in common
pub broadcast proof fn b_tsz_split(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() ==> !(p(#[trigger] s[i]) && q(s[i])) ensures #![trigger s.filter(p), s.filter(q)] tsz(s.filter(p)) + tsz(s.filter(q)) <= tsz(s) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies !(p(#[trigger] d[i]) && q(d[i])) by { assert(d[i] == s[i]); } b_tsz_split(d, p, q); b_tsz_push(d.filter(p), s.last()); b_tsz_push(d.filter(q), s.last()); b_esz(s.last()); assert(s[s.len() - 1] == s.last()); } else { assert(s.filter(p) =~= Seq::empty()); assert(s.filter(q) =~= Seq::empty()); }
}
pub broadcast group g_sz { b_esz, b_esz_is, b_tsz, b_tsz_push, b_tsz_none, b_tsz_last, b_tsz_cat, b_tsz_at, b_tsz_sorted, b_tsz_any, b_tsz_filter, b_tsz_split }
pub trait SzV: Sized { spec fn dz(self) -> int; spec fn bz(self) -> int; spec fn sz(self) -> int; spec fn nn(self) -> bool; }
impl SzV for Vec<Expression> { open spec fn dz(self) -> int { tsz(self.g@) } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { tsz(self.g@) } open spec fn nn(self) -> bool { true } }
impl SzV for It<Expression> { open spec fn dz(self) -> int { tsz(self.g@) } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { tsz(self.g@) } open spec fn nn(self) -> bool { true } }
impl SzV for ItO<Expression> { open spec fn dz(self) -> int { tsz(self.g@) } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { tsz(self.g@) } open spec fn nn(self) -> bool { true } }
impl SzV for Expression { open spec fn dz(self) -> int { esz(self) } open spec fn bz(self) -> int { bm(self) } open spec fn sz(self) -> int { esz(self) } open spec fn nn(self) -> bool { true } }
impl SzV for &Expression { open spec fn dz(self) -> int { esz(*self) } open spec fn bz(self) -> int { bm(*self) } open spec fn sz(self) -> int { esz(*self) } open spec fn nn(self) -> bool { true } }
impl SzV for Symbol<BigInt> { open spec fn dz(self) -> int { 0 } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { if self.data.g@ == 1 { 0 } else { 1 } } open spec fn nn(self) -> bool { true } }
impl SzV for Symbol<F64> { open spec fn dz(self) -> int { 0 } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { if feq(self.data.g@, fl(1real).g@) { 0 } else { 1 } } open spec fn nn(self) -> bool { nneg(self.data.g@) } }
impl SzV for isize { open spec fn dz(self) -> int { 0 } open spec fn bz(self) -> int { 0 } open spec fn sz(self) -> int { 0 } open spec fn nn(self) -> bool { true } }
/// not less than zero, not greater than zero: NaN is both
pub open spec fn nneg(a: FV) -> bool { !flt(a, FV::Zero(false)) }
pub open spec fn npos(a: FV) -> bool { !flt(FV::Zero(false), a) }
/// IEEE 754: the signs of products of doubles (trusted)
#[verifier::external_body] pub broadcast proof fn axiom_fmul_sign(a: FV, b: FV) ensures #![trigger fmul(a, b)] (nneg(a) && nneg(b)) || (npos(a) && npos(b)) ==> nneg(fmul(a, b)), (nneg(a) && npos(b)) || (npos(a) && nneg(b)) ==> npos(fmul(a, b)) {}
/// IEEE 754: rounding keeps the sign, and one as it is (trusted)
#[verifier::external_body] pub broadcast proof fn axiom_fround_sign(x: real) ensures #![trigger fround(x)] x >= 0real ==> nneg(fround(x)), x <= 0real ==> npos(fround(x)), x == 1real || x == -1real ==> fround(x) == FV::Fin(x) {}
pub proof fn vacuity_sz() ensures false { broadcast use {g_sz, axiom_fmul_sign, axiom_fround_sign}; }
