// ===================== the value of an expression under an assignment =====================
// `env`, `rsin`, `rcos`, `rpow`, `rlog` are arbitrary functions: what is proved holds for every assignment, and for
// every reading of powers and logarithms that satisfies the laws stated below as axioms.
pub uninterp spec fn env(v: VStr) -> real;
pub uninterp spec fn rsin(a: real) -> real;
pub uninterp spec fn rcos(a: real) -> real;

pub open spec fn eval(e: Expression) -> real decreases e {
    match e {
        Expression::Variable(s) => env(s.data),
        Expression::Real(s) => s.data.g@,
        Expression::Integer(s) => ir(s.data.g@),
        Expression::Multiplication(a) => prodv(a.items.s@),
        Expression::Addition(a) => sumv(a.items.s@),
        Expression::Power(p) => rpow(eval(*p.argument), eval(*p.modifier)),
        Expression::Logarithm(p) => rlog(eval(*p.argument), eval(*p.modifier)),
        Expression::Sine(o) => rsin(eval(*o.argument)),
        Expression::Cossine(o) => rcos(eval(*o.argument)),
    }
}
pub open spec fn sumv(s: Seq<Expression>) -> real decreases s, s.len() { if s.len() == 0 { 0real } else { sumv(s.drop_last()) + eval(s.last()) } }
pub open spec fn prodv(s: Seq<Expression>) -> real decreases s, s.len() { if s.len() == 0 { 1real } else { rm(prodv(s.drop_last()), eval(s.last())) } }

// ---- literals
pub open spec fn is_int(e: Expression) -> bool { e is Integer }
pub open spec fn is_real(e: Expression) -> bool { e is Real }
pub open spec fn int_of(e: Expression) -> int { e->Integer_0.data.g@ }
pub open spec fn zero_lit(e: Expression) -> bool { (e is Integer && e->Integer_0.data.g@ == 0) || (e is Real && e->Real_0.data.g@ == 0real) }

// ---- made of positive quantities throughout
pub open spec fn spos(e: Expression) -> bool decreases e {
    match e {
        Expression::Variable(s) => env(s.data) > 0real,
        Expression::Real(s) => s.data.g@ > 0real,
        Expression::Integer(s) => s.data.g@ > 0,
        Expression::Multiplication(a) => a.items.s@.len() > 0 && all_spos(a.items.s@),
        Expression::Addition(a) => a.items.s@.len() > 0 && all_spos(a.items.s@),
        Expression::Power(p) => spos(*p.argument),
        _ => false,
    }
}
#[verifier::opaque] pub open spec fn all_spos(s: Seq<Expression>) -> bool decreases s, s.len() { forall|i: int| 0 <= i < s.len() ==> spos(#[trigger] s[i]) }

// ---- defined: every power and logarithm inside is in its domain
pub open spec fn pdom(b: Expression, m: Expression) -> bool { spos(b) || (m is Integer && (int_of(m) > 0 || eval(b) != 0real)) }
pub open spec fn ldom(a: Expression, b: Expression) -> bool { spos(a) && spos(b) && eval(b) != 1real }
pub open spec fn dom(e: Expression) -> bool decreases e {
    match e {
        Expression::Multiplication(a) => all_dom(a.items.s@),
        Expression::Addition(a) => all_dom(a.items.s@),
        Expression::Power(p) => dom(*p.argument) && dom(*p.modifier) && pdom(*p.argument, *p.modifier),
        Expression::Logarithm(p) => dom(*p.argument) && dom(*p.modifier) && ldom(*p.argument, *p.modifier),
        Expression::Sine(o) => dom(*o.argument),
        Expression::Cossine(o) => dom(*o.argument),
        _ => true,
    }
}
#[verifier::opaque] pub open spec fn all_dom(s: Seq<Expression>) -> bool decreases s, s.len() { forall|i: int| 0 <= i < s.len() ==> dom(#[trigger] s[i]) }

// ---- shape: what construction leaves of the literals
pub open spec fn nint(s: Seq<Expression>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nint(s.drop_last()) + (if s.last() is Integer { 1int } else { 0 }) } }
pub open spec fn nreal(s: Seq<Expression>) -> int decreases s.len() { if s.len() == 0 { 0 } else { nreal(s.drop_last()) + (if s.last() is Real { 1int } else { 0 }) } }
#[verifier::opaque] pub open spec fn no_zero(s: Seq<Expression>) -> bool { forall|i: int| 0 <= i < s.len() ==> !zero_lit(#[trigger] s[i]) }
pub open spec fn shp(e: Expression) -> bool decreases e {
    match e {
        Expression::Multiplication(a) => nint(a.items.s@) <= 1 && nreal(a.items.s@) <= 1 && no_zero(a.items.s@) && all_shp(a.items.s@),
        Expression::Addition(a) => all_shp(a.items.s@),
        Expression::Power(p) => !zero_lit(*p.argument) && !zero_lit(*p.modifier) && (*p.argument is Integer && *p.modifier is Integer ==> int_of(*p.modifier) == -1) && shp(*p.argument) && shp(*p.modifier),
        Expression::Logarithm(p) => shp(*p.argument) && shp(*p.modifier),
        Expression::Sine(o) => shp(*o.argument),
        Expression::Cossine(o) => shp(*o.argument),
        _ => true,
    }
}
#[verifier::opaque] pub open spec fn all_shp(s: Seq<Expression>) -> bool decreases s, s.len() { forall|i: int| 0 <= i < s.len() ==> shp(#[trigger] s[i]) }
pub open spec fn good(e: Expression) -> bool { dom(e) && shp(e) }
