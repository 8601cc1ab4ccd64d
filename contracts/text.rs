// ===================== text =====================
/// a formatter keeps what it is given, and does not fail (trusted)
pub struct FState { pub g: Ghost<Seq<char>> }
pub struct FErr {}
pub type FRes = std::result::Result<(), FErr>;
impl FState {
    #[verifier::external_body] pub fn nothing(&mut self) -> (r: FRes) ensures final(self).g@ == old(self).g@, r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, s: &VStr) -> (r: FRes) ensures final(self).g@ == old(self).g@ + s.g@, r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn write_char(&mut self, c: char) -> (r: FRes) ensures final(self).g@ == old(self).g@.push(c), r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: FState) ensures r.g@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: VStr) ensures r == (VStr { g: self.g }) { unimplemented!() }
}
impl VStr {
    #[verifier::external_body] pub fn litc(s: Ghost<Seq<char>>) -> (r: &'static VStr) ensures *r == (VStr { g: s }) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: VStr) ensures r.g@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &VStr) ensures final(self).g@ == old(self).g@ + s.g@ { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).g@ == old(self).g@.push(c) { unimplemented!() }
}
impl<T, E> OptExt<T> for std::result::Result<T, E> { open spec fn vunwrap__s(self) -> T { self->Ok_0 } open spec fn is_some__b(self) -> bool { self is Ok } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
/// what has been written, with this written after it
pub trait VDispS: Sized { spec fn write__s(&self, now: Seq<char>) -> Seq<char>; }
pub trait VDisp: VDispS { fn fmt(&self, f: &mut FState) -> (r: FRes) ensures final(f).g@ == self.write__s(old(f).g@), r is Ok; }
pub trait VToS: VDispS { fn to_string(&self) -> (r: VStr) ensures r.g@ == self.write__s(Seq::<char>::empty()); }
impl<T: VDispS> VToS for T { #[verifier::external_body] fn to_string(&self) -> (r: VStr) { unimplemented!() } }
impl<T: VDispS> VDispS for &T { open spec fn write__s(&self, now: Seq<char>) -> Seq<char> { (**self).write__s(now) } }
impl<T: VDispS> VDisp for &T { #[verifier::external_body] fn fmt(&self, f: &mut FState) -> (r: FRes) { unimplemented!() } }
impl VDispS for VStr { open spec fn write__s(&self, now: Seq<char>) -> Seq<char> { now + self.g@ } }
impl VDisp for VStr { #[verifier::external_body] fn fmt(&self, f: &mut FState) -> (r: FRes) { unimplemented!() } }
impl VDispS for BigInt { open spec fn write__s(&self, now: Seq<char>) -> Seq<char> { now + fmt_int(self.g@).g@ } }
impl VDisp for BigInt { #[verifier::external_body] fn fmt(&self, f: &mut FState) -> (r: FRes) { unimplemented!() } }
impl VDispS for F64 { open spec fn write__s(&self, now: Seq<char>) -> Seq<char> { now + fmt_f64(*self).g@ } }
impl VDisp for F64 { #[verifier::external_body] fn fmt(&self, f: &mut FState) -> (r: FRes) { unimplemented!() } }
/// an expression written after what there is: every operand, its operator, its nesting
pub open spec fn tw(now: Seq<char>, e: Expression) -> Seq<char> decreases e, 0nat {
    match e {
        Expression::Variable(x) => now + x.data.g@,
        Expression::Integer(n) => now + fmt_int(n.data.g@).g@,
        Expression::Real(x) => now + fmt_f64(x.data).g@,
        Expression::Power(p) => tw(tw(now.push('p').push('o').push('w').push('('), *p.argument).push(',').push(' '), *p.modifier).push(')'),
        Expression::Logarithm(p) => tw(tw(now.push('l').push('o').push('g').push('('), *p.argument).push(',').push(' '), *p.modifier).push(')'),
        Expression::Sine(p) => tw(now.push('s').push('i').push('n').push('('), *p.argument).push(')'),
        Expression::Cossine(p) => tw(now.push('c').push('o').push('s').push('('), *p.argument).push(')'),
        Expression::Addition(a) => if a.items.s@.len() == 0 { now } else { jw(now.push('('), '+', a.items.s@, true).push(')') },
        Expression::Multiplication(a) => if a.items.s@.len() == 0 { now } else { jw(now.push('('), '*', a.items.s@, true).push(')') },
    }
}
/// items, each with the operator before it, the first one without
pub open spec fn jw(now: Seq<char>, op: char, s: Seq<Expression>, first: bool) -> Seq<char> decreases s, s.len() {
    if s.len() == 0 { now } else { jw(tw(if first { now } else { now.push(' ').push(op).push(' ') }, s.first()), op, s.drop_first(), false) }
}
pub open spec fn items_of(e: Expression) -> Seq<Expression> { if e is Addition { e->Addition_0.items.s@ } else { e->Multiplication_0.items.s@ } }
pub open spec fn op_of(e: Expression) -> char { if e is Addition { '+' } else { '*' } }
/// what has been written, and then what is left to visit, make up the whole
pub open spec fn rest_ok(left: Seq<Expression>, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { (e is Addition || e is Multiplication) && items_of(e).len() > 0 ==> jw(now, op_of(e), left, false).push(')') == tw(f0, e) }
pub trait TxV: Sized { spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool; }
impl TxV for It<Expression> { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { rest_ok(self.g@, now, f0, e) } }
impl TxV for ItO<Expression> { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { rest_ok(self.g@, now, f0, e) } }
impl TxV for FState { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { true } }
impl TxV for bool { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { true } }
impl TxV for usize { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { true } }
impl TxV for Vec<Expression> { open spec fn ok(self, now: Seq<char>, f0: Seq<char>, e: Expression) -> bool { true } }
impl VDispS for Expression { open spec fn write__s(&self, now: Seq<char>) -> Seq<char> { tw(now, *self) } }
pub broadcast proof fn b_jw(now: Seq<char>, op: char, s: Seq<Expression>, first: bool) requires s.len() > 0 ensures #![trigger jw(now, op, s, first), s.drop_first()] jw(now, op, s, first) == jw(tw(if first { now } else { now.push(' ').push(op).push(' ') }, s.first()), op, s.drop_first(), false) {}
pub broadcast proof fn b_jw_none(now: Seq<char>, op: char, s: Seq<Expression>, first: bool) requires s.len() == 0 ensures #[trigger] jw(now, op, s, first) == now {}
pub proof fn vacuity_text() ensures false { broadcast use {b_jw, b_jw_none}; }
