// ===================== polynomials, written out =====================
/// Poly: made of variables, integers, sums, products and positive integer powers. Xp: so, and written out. Xn: so, and not a sum. Pint: a positive integer.
pub enum Pr { Poly, Xp, Xn, Pint }
pub open spec fn pint(e: Expression) -> bool { e is Integer && e->Integer_0.data.g@ > 0 }
pub open spec fn wint(e: Expression) -> bool { pint(e) && e->Integer_0.data.g@ <= isize::MAX }
pub open spec fn holds(p: Pr, e: Expression) -> bool { match p { Pr::Poly => poly(e), Pr::Xp => xp(e), Pr::Xn => xp(e) && !(e is Addition), Pr::Pint => pint(e) } }
/// variables, integers, sums, products, positive integer powers (exponents of the machine word)
pub open spec fn poly(e: Expression) -> bool decreases e, 0int {
    match e {
        Expression::Variable(_) => true,
        Expression::Integer(_) => true,
        Expression::Addition(a) => all_poly(a.items.s@),
        Expression::Multiplication(a) => all_poly(a.items.s@),
        Expression::Power(p) => poly(*p.argument) && wint(*p.modifier),
        _ => false,
    }
}
#[verifier::opaque] pub open spec fn all_poly(s: Seq<Expression>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> poly(#[trigger] s[i]) }
/// nowhere a sum that is a factor, a summand, or the base of a power; nothing but variables, integers, sums, products and positive integer powers
pub open spec fn xp(e: Expression) -> bool decreases e, 0int {
    match e {
        Expression::Variable(_) => true,
        Expression::Integer(_) => true,
        Expression::Addition(a) => all_xn(a.items.s@),
        Expression::Multiplication(a) => all_xn(a.items.s@),
        Expression::Power(p) => xp(*p.argument) && !(*p.argument is Addition) && pint(*p.modifier),
        _ => false,
    }
}
#[verifier::opaque] pub open spec fn all_xn(s: Seq<Expression>) -> bool decreases s, 1int { forall|i: int| 0 <= i < s.len() ==> xp(#[trigger] s[i]) && !(s[i] is Addition) }
pub broadcast proof fn b_all_poly(s: Seq<Expression>) ensures #![trigger all_poly(s)] all_poly(s) == allp(Pr::Poly, s) { reveal(all_poly); reveal(allp); assert(allp(Pr::Poly, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Poly, #[trigger] s[i])); assert(all_poly(s) ==> forall|i: int| 0 <= i < s.len() ==> poly(#[trigger] s[i])); }
pub broadcast proof fn b_all_xn(s: Seq<Expression>) ensures #![trigger all_xn(s)] all_xn(s) == allp(Pr::Xn, s) { reveal(all_xn); reveal(allp); assert(allp(Pr::Xn, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Xn, #[trigger] s[i])); assert(all_xn(s) ==> forall|i: int| 0 <= i < s.len() ==> xp(#[trigger] s[i]) && !(s[i] is Addition)); }
pub broadcast proof fn b_poly(e: Expression) ensures #![trigger poly(e)] e is Addition ==> poly(e) == allp(Pr::Poly, e->Addition_0.items.s@), e is Multiplication ==> poly(e) == allp(Pr::Poly, e->Multiplication_0.items.s@), e is Power ==> poly(e) == (poly(*e->Power_0.argument) && wint(*e->Power_0.modifier)) { reveal(all_poly); if e is Addition { b_all_poly(e->Addition_0.items.s@); } if e is Multiplication { b_all_poly(e->Multiplication_0.items.s@); } }
pub broadcast proof fn b_xp(e: Expression) ensures #![trigger xp(e)] e is Addition ==> xp(e) == allp(Pr::Xn, e->Addition_0.items.s@), e is Multiplication ==> xp(e) == allp(Pr::Xn, e->Multiplication_0.items.s@), e is Power ==> xp(e) == (xp(*e->Power_0.argument) && !(*e->Power_0.argument is Addition) && pint(*e->Power_0.modifier)) { reveal(all_xn); if e is Addition { b_all_xn(e->Addition_0.items.s@); } if e is Multiplication { b_all_xn(e->Multiplication_0.items.s@); } }
/// a product of written-out factors: sums may be among them
pub open spec fn px(e: Expression) -> bool { if e is Multiplication { allp(Pr::Xp, e->Multiplication_0.items.s@) } else { xp(e) } }
/// a power of a sum that is written out, or something written out
pub open spec fn pw(e: Expression) -> bool { xp(e) || (e is Power && xp(*e->Power_0.argument) && wint(*e->Power_0.modifier)) }
pub broadcast proof fn b_xn(p: Pr, s: Seq<Expression>) ensures #![trigger allp(p, s)] p is Xn && allp(p, s) ==> allp(Pr::Xp, s), p is Pint && allp(p, s) ==> allp(Pr::Xn, s) { if (p is Xn || p is Pint) && allp(p, s) { reveal(allp); assert forall|i: int| 0 <= i < s.len() implies holds(Pr::Xp, #[trigger] s[i]) by { assert(holds(p, s[i])); }
    if p is Pint { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::Xn, #[trigger] s[i]) by { assert(holds(p, s[i])); } } } }
pub broadcast proof fn b_poly_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && poly(#[trigger] s[i]) ==> xp(t[i]) ensures #![trigger mapped__(s, t)] mapped__(s, t) && allp(Pr::Poly, s) ==> allp(Pr::Xp, t) {
    reveal(allp); if mapped__(s, t) && allp(Pr::Poly, s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Xp, #[trigger] t[i]) by { assert(holds(Pr::Poly, s[i])); } }
}
pub broadcast proof fn b_xn_map(s: Seq<Expression>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() && xp(#[trigger] s[i]) && !(s[i] is Addition) ==> xp(t[i]) && !(t[i] is Addition) ensures #![trigger mapped__(s, t)] mapped__(s, t) && allp(Pr::Xn, s) ==> allp(Pr::Xn, t) {
    reveal(allp); if mapped__(s, t) && allp(Pr::Xn, s) { assert forall|i: int| 0 <= i < t.len() implies holds(Pr::Xn, #[trigger] t[i]) by { assert(holds(Pr::Xn, s[i])); } }
}
pub broadcast group g_all { b_poly, b_xp, b_xn, b_filter_at, b_filter_has, b_all_push, b_all_none, b_all_last, b_all_cat, b_all_at, b_all_sorted, b_all_any, b_all_filter, b_all_filter_in }
pub broadcast proof fn b_ipos(a: int, b: int) ensures #![trigger big(a * b)] a > 0 && b > 0 ==> a * b > 0 { assert(a > 0 && b > 0 ==> a * b > 0) by(nonlinear_arith); }
pub trait XpV: Sized { spec fn xn(self) -> bool; spec fn xq(self) -> bool; spec fn xi(self) -> bool; spec fn x1(self) -> bool; spec fn em(self) -> bool; }
impl XpV for Vec<Expression> { open spec fn xn(self) -> bool { allp(Pr::Xn, self.g@) } open spec fn xq(self) -> bool { allp(Pr::Xp, self.g@) } open spec fn xi(self) -> bool { allp(Pr::Pint, self.g@) } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { self.g@.len() == 0 } }
impl XpV for It<Expression> { open spec fn xn(self) -> bool { allp(Pr::Xn, self.g@) } open spec fn xq(self) -> bool { allp(Pr::Xp, self.g@) } open spec fn xi(self) -> bool { allp(Pr::Pint, self.g@) } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { true } }
impl XpV for ItO<Expression> { open spec fn xn(self) -> bool { allp(Pr::Xn, self.g@) } open spec fn xq(self) -> bool { allp(Pr::Xp, self.g@) } open spec fn xi(self) -> bool { allp(Pr::Pint, self.g@) } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { true } }
impl XpV for Expression { open spec fn xn(self) -> bool { holds(Pr::Xn, self) } open spec fn xq(self) -> bool { xp(self) } open spec fn xi(self) -> bool { pint(self) } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { true } }
impl XpV for Symbol<BigInt> { open spec fn xn(self) -> bool { true } open spec fn xq(self) -> bool { true } open spec fn xi(self) -> bool { self.data.g@ > 0 } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { true } }
impl XpV for Symbol<F64> { open spec fn xn(self) -> bool { self.data.g@ == 1real } open spec fn xq(self) -> bool { self.data.g@ == 1real } open spec fn xi(self) -> bool { self.data.g@ == 1real } open spec fn x1(self) -> bool { self.data.g@ == 0real } open spec fn em(self) -> bool { true } }
impl XpV for isize { open spec fn xn(self) -> bool { true } open spec fn xq(self) -> bool { true } open spec fn xi(self) -> bool { true } open spec fn x1(self) -> bool { true } open spec fn em(self) -> bool { true } }
pub proof fn vacuity_xp() ensures false { broadcast use {g_all, b_all_first, b_poly_map, b_xn_map, b_ipos}; }
