// ===================== what expressions are made of (no values here) =====================
/// Nor: no real constant anywhere inside.
pub enum Pr { Nor }
pub open spec fn holds(p: Pr, e: Expression) -> bool { match p { Pr::Nor => nor(e) } }
pub open spec fn nor(e: Expression) -> bool decreases e, 0int {
    match e {
        Expression::Real(_) => false,
        Expression::Multiplication(a) => all_nor(a.items.s@),
        Expression::Addition(a) => all_nor(a.items.s@),
        Expression::Power(p) => nor(*p.argument) && nor(*p.modifier),
        Expression::Logarithm(p) => nor(*p.argument) && nor(*p.modifier),
        _ => true,
    }
}
#[verifier::opaque] pub open spec fn all_nor(s: Seq<Expression>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> nor(#[trigger] s[i]) }
pub broadcast proof fn b_nor_all(s: Seq<Expression>) ensures #![trigger all_nor(s)] all_nor(s) == allp(Pr::Nor, s) { reveal(all_nor); reveal(allp); assert(allp(Pr::Nor, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Nor, #[trigger] s[i])); assert(all_nor(s) ==> forall|i: int| 0 <= i < s.len() ==> nor(#[trigger] s[i])); }
pub broadcast proof fn b_nor_mul(a: CommutativeAssociation) ensures #![trigger nor(Expression::Multiplication(a))] nor(Expression::Multiplication(a)) == allp(Pr::Nor, a.items.s@) { reveal(all_nor); b_nor_all(a.items.s@); }
pub broadcast proof fn b_nor_add(a: CommutativeAssociation) ensures #![trigger nor(Expression::Addition(a))] nor(Expression::Addition(a)) == allp(Pr::Nor, a.items.s@) { reveal(all_nor); b_nor_all(a.items.s@); }
pub broadcast proof fn b_nor_pow(p: AssociativeOperation) ensures #![trigger nor(Expression::Power(p))] nor(Expression::Power(p)) == (nor(*p.argument) && nor(*p.modifier)) {}
pub broadcast proof fn b_nor_log(p: AssociativeOperation) ensures #![trigger nor(Expression::Logarithm(p))] nor(Expression::Logarithm(p)) == (nor(*p.argument) && nor(*p.modifier)) {}
pub broadcast proof fn b_nor_node(e: Expression) ensures #![trigger nor(e)] e is Multiplication ==> nor(e) == allp(Pr::Nor, e->Multiplication_0.items.s@), e is Addition ==> nor(e) == allp(Pr::Nor, e->Addition_0.items.s@) { reveal(all_nor); if e is Multiplication { b_nor_all(e->Multiplication_0.items.s@); } if e is Addition { b_nor_all(e->Addition_0.items.s@); } }
/// item by item
pub broadcast proof fn b_nor_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && nor(#[trigger] s[i]) ==> nor(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && allp(Pr::Nor, s) ==> allp(Pr::Nor, t) {
    reveal(allp); if mapped__(s, t) && allp(Pr::Nor, s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Nor, #[trigger] t[i]) by { assert(holds(Pr::Nor, s[i])); } }
}
pub broadcast group g_all { b_nor_mul, b_nor_add, b_nor_pow, b_nor_log, b_nor_node, b_filter_at, b_filter_has, b_all_push, b_all_none, b_all_last, b_all_cat, b_all_at, b_all_sorted, b_all_any, b_all_filter, b_all_filter_in }
// ---- the tables of terms and of factors
pub type msT = (Expression, Symbol<BigInt>);
pub type mpT = (Expression, Expression);
#[verifier::opaque] pub open spec fn ms_nor(s: Seq<msT>) -> bool { forall|i: int| 0 <= i < s.len() ==> nor((#[trigger] s[i]).0) }
#[verifier::opaque] pub open spec fn mp_nor(s: Seq<mpT>) -> bool { forall|i: int| 0 <= i < s.len() ==> nor((#[trigger] s[i]).0) && nor(s[i].1) }
pub broadcast proof fn b_msn_none(s: Seq<msT>) requires s.len() == 0 ensures #![trigger ms_nor(s)] ms_nor(s) { reveal(ms_nor); }
pub broadcast proof fn b_mpn_none(s: Seq<mpT>) requires s.len() == 0 ensures #![trigger mp_nor(s)] mp_nor(s) { reveal(mp_nor); }
pub broadcast proof fn b_msn_push(s: Seq<msT>, y: msT) ensures #![trigger ms_nor(s.push(y))] ms_nor(s) && nor(y.0) ==> ms_nor(s.push(y)) { reveal(ms_nor); }
pub broadcast proof fn b_mpn_push(s: Seq<mpT>, y: mpT) ensures #![trigger mp_nor(s.push(y))] mp_nor(s) && nor(y.0) && nor(y.1) ==> mp_nor(s.push(y)) { reveal(mp_nor); }
pub broadcast proof fn b_msn_remove(s: Seq<msT>, i: int) requires 0 <= i < s.len() ensures #![trigger ms_nor(s), s.remove(i)] #![trigger ms_nor(s.remove(i))] ms_nor(s) ==> ms_nor(s.remove(i)) && nor(s[i].0) { reveal(ms_nor); }
pub broadcast proof fn b_mpn_remove(s: Seq<mpT>, i: int) requires 0 <= i < s.len() ensures #![trigger mp_nor(s), s.remove(i)] #![trigger mp_nor(s.remove(i))] mp_nor(s) ==> mp_nor(s.remove(i)) && nor(s[i].0) && nor(s[i].1) { reveal(mp_nor); }
pub broadcast proof fn b_msn_update(s: Seq<msT>, i: int, y: msT) requires 0 <= i < s.len() ensures #![trigger ms_nor(s.update(i, y))] ms_nor(s) && nor(y.0) ==> ms_nor(s.update(i, y)) { reveal(ms_nor); }
pub broadcast proof fn b_mpn_update(s: Seq<mpT>, i: int, y: mpT) requires 0 <= i < s.len() ensures #![trigger mp_nor(s.update(i, y))] mp_nor(s) && nor(y.0) && nor(y.1) ==> mp_nor(s.update(i, y)) { reveal(mp_nor); }
pub broadcast proof fn b_msn_filter(s: Seq<msT>, p: spec_fn(msT) -> bool) ensures #![trigger ms_nor(s.filter(p))] ms_nor(s) ==> ms_nor(s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1); if s.len() == 0 { assert(s.filter(p) =~= Seq::empty()); b_msn_none(s.filter(p)); }
    if s.len() > 0 && ms_nor(s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_msn_remove(s, s.len() - 1); b_msn_filter(d, p); b_msn_push(d.filter(p), s.last()); } }
pub broadcast proof fn b_mpn_filter(s: Seq<mpT>, p: spec_fn(mpT) -> bool) ensures #![trigger mp_nor(s.filter(p))] mp_nor(s) ==> mp_nor(s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1); if s.len() == 0 { assert(s.filter(p) =~= Seq::empty()); b_mpn_none(s.filter(p)); }
    if s.len() > 0 && mp_nor(s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_mpn_remove(s, s.len() - 1); b_mpn_filter(d, p); b_mpn_push(d.filter(p), s.last()); } }
pub broadcast proof fn b_msn_map(s: Seq<msT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && nor((#[trigger] s[i]).0) ==> nor(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && ms_nor(s) ==> allp(Pr::Nor, t) {
    reveal(allp); reveal(ms_nor); if mapped__(s, t) && ms_nor(s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Nor, #[trigger] t[i]) by { assert(nor(s[i].0)); } }
}
pub broadcast proof fn b_mpn_map(s: Seq<mpT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && nor((#[trigger] s[i]).0) && nor(s[i].1) ==> nor(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && mp_nor(s) ==> allp(Pr::Nor, t) {
    reveal(allp); reveal(mp_nor); if mapped__(s, t) && mp_nor(s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Nor, #[trigger] t[i]) by { assert(nor(s[i].0)); } }
}
pub broadcast group g_tab { b_msn_update, b_mpn_update, b_msn_none, b_msn_push, b_msn_remove, b_msn_filter, b_msn_map, b_mpn_none, b_mpn_push, b_mpn_remove, b_mpn_filter, b_mpn_map }
/// the same, of variables of the types loops work with (a real constant being gathered is still 0, or still 1)
pub trait NoV: Sized { spec fn nn(self) -> bool; spec fn n0(self) -> bool; spec fn n1(self) -> bool; }
impl NoV for Vec<Expression> { open spec fn nn(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n0(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n1(self) -> bool { allp(Pr::Nor, self.g@) } }
impl NoV for It<Expression> { open spec fn nn(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n0(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n1(self) -> bool { allp(Pr::Nor, self.g@) } }
impl NoV for ItO<Expression> { open spec fn nn(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n0(self) -> bool { allp(Pr::Nor, self.g@) } open spec fn n1(self) -> bool { allp(Pr::Nor, self.g@) } }
impl NoV for Expression { open spec fn nn(self) -> bool { nor(self) } open spec fn n0(self) -> bool { nor(self) } open spec fn n1(self) -> bool { nor(self) } }
impl NoV for isize { open spec fn nn(self) -> bool { true } open spec fn n0(self) -> bool { true } open spec fn n1(self) -> bool { true } }
impl NoV for Symbol<BigInt> { open spec fn nn(self) -> bool { true } open spec fn n0(self) -> bool { true } open spec fn n1(self) -> bool { true } }
impl NoV for Symbol<F64> { open spec fn nn(self) -> bool { true } open spec fn n0(self) -> bool { self.data.g@ == 0real } open spec fn n1(self) -> bool { self.data.g@ == 1real } }
impl NoV for HashMap<Expression, Symbol<BigInt>> { open spec fn nn(self) -> bool { ms_nor(self.g@) } open spec fn n0(self) -> bool { ms_nor(self.g@) } open spec fn n1(self) -> bool { ms_nor(self.g@) } }
impl NoV for HashMap<Expression, Expression> { open spec fn nn(self) -> bool { mp_nor(self.g@) } open spec fn n0(self) -> bool { mp_nor(self.g@) } open spec fn n1(self) -> bool { mp_nor(self.g@) } }
pub proof fn vacuity_st() ensures false { broadcast use {g_all, g_tab, b_all_first, b_nor_map, b_nor_all}; }
