// ===================== values of the dependencies, seen through ghost contents =====================
// Machine words stay machine words; BigInt is a mathematical integer; f64 is a mathematical real.
pub struct BigInt { pub g: Ghost<int> }
pub struct BigUint { pub g: Ghost<int> }
pub struct F64 { pub g: Ghost<real> } //@real
//@ieee pub struct F64 { pub g: Ghost<FV> }
//@ieee /// a double: what it is apart from its bits; a number other than zero is known by its value
//@ieee pub enum FV { NaN(int), NInf, PInf, Zero(bool), Fin(real) }
//@ieee pub open spec fn fnum(a: FV) -> bool { a is Zero || a is Fin }
//@ieee pub open spec fn fval(a: FV) -> real { match a { FV::Fin(x) => x, _ => 0real } }
//@ieee pub open spec fn feq(a: FV, b: FV) -> bool { (a is NInf && b is NInf) || (a is PInf && b is PInf) || (fnum(a) && fnum(b) && fval(a) == fval(b)) }
//@ieee pub open spec fn flt(a: FV, b: FV) -> bool { !(a is NaN) && !(b is NaN) && ((a is NInf && !(b is NInf)) || (b is PInf && !(a is PInf)) || (fnum(a) && fnum(b) && fval(a) < fval(b))) }
//@ieee pub open spec fn fpc(a: FV, b: FV) -> Option<Ordering> { if feq(a, b) { Some(Ordering::Equal) } else if flt(a, b) { Some(Ordering::Less) } else if flt(b, a) { Some(Ordering::Greater) } else { None } }
//@ieee pub uninterp spec fn fadd(a: FV, b: FV) -> FV;
//@ieee pub uninterp spec fn fsub(a: FV, b: FV) -> FV;
//@ieee pub uninterp spec fn fmul(a: FV, b: FV) -> FV;
//@ieee pub uninterp spec fn fdiv(a: FV, b: FV) -> FV;
//@ieee pub uninterp spec fn ffun(n: int, a: FV, b: FV) -> FV;
//@ieee pub uninterp spec fn fround(x: real) -> FV;
//@ieee pub open spec fn fneg(a: FV) -> FV { match a { FV::NaN(p) => FV::NaN(-p), FV::NInf => FV::PInf, FV::PInf => FV::NInf, FV::Zero(s) => FV::Zero(!s), FV::Fin(x) => FV::Fin(-x) } }
//@ieee pub open spec fn fd(a: FV) -> F64 { F64 { g: Ghost(a) } }
pub struct VStr { pub g: Ghost<Seq<char>> }
pub struct Vec<T> { pub g: Ghost<Seq<T>> }
/// an iterator over references to, or over copies of, the items still to come
pub struct It<T> { pub g: Ghost<Seq<T>> }
pub struct ItO<T> { pub g: Ghost<Seq<T>> }
/// a heap is identified with its sorted listing
pub struct BinaryHeap<T> { pub s: Ghost<Seq<T>> }

#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub enum MapSpec<A, B> { Fun(spec_fn(A) -> B), Rel(spec_fn(A, B) -> bool), Unknown }
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(C)]
pub enum MapSpec2<A, B, C> { Fun(spec_fn(A, B) -> C), Rel(spec_fn(A, B, C) -> bool), Unknown }

pub open spec fn same__<T>(a: T, b: T) -> bool { a == b }
/// t holds some of the items of s
pub open spec fn sub__<T>(s: Seq<T>, t: Seq<T>) -> bool { forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i]) }
/// t was made from s item by item
pub open spec fn mapped__<A, B>(s: Seq<A>, t: Seq<B>) -> bool { s.len() == t.len() }

pub trait CloneS: Sized { spec fn clone__s(&self) -> Self; }
impl<T> CloneS for T { open spec fn clone__s(&self) -> Self { *self } }

impl Clone for BigInt { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for BigUint { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for F64 { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for F64 {}
impl Clone for VStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for Vec<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for It<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for ItO<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for BinaryHeap<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---------------------------------------------------------------------------- operators
pub trait OpAdd<R>: Sized { type O; spec fn op_add__req(self, o: R) -> bool; spec fn op_add__s(self, o: R) -> Self::O; spec fn op_add__post(self, o: R, r: Self::O) -> bool; fn op_add(self, o: R) -> (r: Self::O) OPREQ(op_add) ensures self.op_add__post(o, r); }
pub trait OpSub<R>: Sized { type O; spec fn op_sub__req(self, o: R) -> bool; spec fn op_sub__s(self, o: R) -> Self::O; spec fn op_sub__post(self, o: R, r: Self::O) -> bool; fn op_sub(self, o: R) -> (r: Self::O) OPREQ(op_sub) ensures self.op_sub__post(o, r); }
pub trait OpMul<R>: Sized { type O; spec fn op_mul__req(self, o: R) -> bool; spec fn op_mul__s(self, o: R) -> Self::O; spec fn op_mul__post(self, o: R, r: Self::O) -> bool; fn op_mul(self, o: R) -> (r: Self::O) OPREQ(op_mul) ensures self.op_mul__post(o, r); }
pub trait OpDiv<R>: Sized { type O; spec fn op_div__req(self, o: R) -> bool; spec fn op_div__s(self, o: R) -> Self::O; spec fn op_div__post(self, o: R, r: Self::O) -> bool; fn op_div(self, o: R) -> (r: Self::O) OPREQ(op_div) ensures self.op_div__post(o, r); }
pub trait OpRem<R>: Sized { type O; spec fn op_rem__req(self, o: R) -> bool; spec fn op_rem__s(self, o: R) -> Self::O; spec fn op_rem__post(self, o: R, r: Self::O) -> bool; fn op_rem(self, o: R) -> (r: Self::O) OPREQ(op_rem) ensures self.op_rem__post(o, r); }
pub trait OpNeg: Sized { type O; spec fn op_neg__s(self) -> Self::O; spec fn op_neg__post(self, r: Self::O) -> bool; fn op_neg(self) -> (r: Self::O) ensures self.op_neg__post(r); }
NUMOP!(usize)
NUMOP!(isize)
NUMOP!(i64)
NUMOP!(i32)
NUMOP!(u64)
NUMOP!(u32)

/// division as machines do it: towards zero
#[verifier::opaque] pub open spec fn tdiv(a: int, b: int) -> int { if b == 0 { 0 } else { let x = if a >= 0 { a } else { -a }; let y = if b >= 0 { b } else { -b }; if (a >= 0) == (b >= 0) { x / y } else { -(x / y) } } }
pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
// ---- products and quotients of reals, kept folded so that the solver works with their laws only
pub mod folded { use super::*;
pub closed spec fn rm(a: real, b: real) -> real { a * b }
pub closed spec fn rdv(a: real, b: real) -> real { a / b }
pub broadcast proof fn b_rm_comm(a: real, b: real) ensures #[trigger] rm(a, b) == rm(b, a) { assert(a * b == b * a) by(nonlinear_arith); }
pub broadcast proof fn b_rm_assoc(a: real, b: real, c: real) ensures #![trigger rm(a, rm(b, c))] rm(rm(a, b), c) == rm(a, rm(b, c)) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub broadcast proof fn b_rm_swap(a: real, b: real, c: real) ensures #![trigger rm(rm(a, b), c)] rm(rm(a, b), c) == rm(rm(a, c), b) { assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
pub broadcast proof fn b_rm_unit(a: real, b: real) ensures #![trigger rm(a, b)] a == 1real ==> rm(a, b) == b, a == 0real ==> rm(a, b) == 0real, a == -1real ==> rm(a, b) == -b { assert(1real * b == b) by(nonlinear_arith); assert(0real * b == 0real) by(nonlinear_arith); assert(-1real * b == -b) by(nonlinear_arith); }
pub broadcast proof fn b_rm_int(i: int, j: int) ensures #![trigger ir(i * j)] rm(ir(i), ir(j)) == ir(i * j) { assert((i as real) * (j as real) == (i * j) as real) by(nonlinear_arith); }
pub proof fn lem_rm_dist(a: real, b: real, c: real) ensures rm(a, b + c) == rm(a, b) + rm(a, c), rm(b + c, a) == rm(b, a) + rm(c, a) { assert(a * (b + c) == a * b + a * c) by(nonlinear_arith); assert((b + c) * a == b * a + c * a) by(nonlinear_arith); }
pub broadcast proof fn b_rm_dist(a: real, b: real, c: real) ensures #![trigger rm(a, b + c)] #![trigger rm(b + c, a)] rm(a, b + c) == rm(a, b) + rm(a, c), rm(b + c, a) == rm(b, a) + rm(c, a) { lem_rm_dist(a, b, c); }
pub broadcast proof fn b_rdv(a: real, b: real) requires b != 0real ensures rm(#[trigger] rdv(a, b), b) == a { assert((a / b) * b == a) by(nonlinear_arith) requires b != 0real; }
pub proof fn lem_rm_zero(a: real, b: real) requires rm(a, b) == 0real ensures a == 0real || b == 0real { assert(a * b == 0real ==> a == 0real || b == 0real) by(nonlinear_arith); }
pub proof fn lem_rm_pos(a: real, b: real) requires a > 0real, b > 0real ensures rm(a, b) > 0real { assert(a > 0real && b > 0real ==> a * b > 0real) by(nonlinear_arith); }
/// products of quantities that are not zero, or positive, are so too
pub broadcast proof fn b_rm_sign(a: real, b: real) ensures #![trigger rm(a, b)] a > 0real && b > 0real ==> rm(a, b) > 0real, a != 0real && b != 0real ==> rm(a, b) != 0real { if a > 0real && b > 0real { lem_rm_pos(a, b); } if rm(a, b) == 0real { lem_rm_zero(a, b); } }
pub proof fn lem_rm_cancel(a: real, b: real, c: real) requires rm(a, c) == rm(b, c), c != 0real ensures a == b { assert(a * c == b * c && c != 0real ==> a == b) by(nonlinear_arith); }
pub proof fn lem_rm_real(a: real, b: real) ensures rm(a, b) == a * b, b != 0real ==> rdv(a, b) == a / b {}
/// the logarithm of the size of a number: products become sums (trusted: such a function exists)
pub uninterp spec fn lg(x: real) -> real;
#[verifier::external_body] pub proof fn axiom_lg(a: real, b: real) ensures a != 0real && b != 0real ==> lg(rm(a, b)) == lg(a) + lg(b), a > 0real && b > 0real && lg(a) == lg(b) ==> a == b {}
pub open spec fn bxor(a: bool, b: bool) -> bool { a != b }
pub proof fn lem_lg_one() ensures lg(1real) == 0real, lg(-1real) == 0real { axiom_lg(1real, 1real); axiom_lg(-1real, -1real); assert(1real * 1real == 1real) by(nonlinear_arith); assert(-1real * -1real == 1real) by(nonlinear_arith); }
pub proof fn lem_lg_neg(a: real) requires a != 0real ensures lg(-a) == lg(a) { lem_lg_one(); axiom_lg(-1real, a); b_rm_unit(-1real, a); }
pub proof fn lem_lg_inj(a: real, b: real) requires a != 0real, b != 0real, lg(a) == lg(b), (a < 0real) == (b < 0real) ensures a == b { if a < 0real { lem_lg_neg(a); lem_lg_neg(b); axiom_lg(-a, -b); } else { axiom_lg(a, b); } }
pub broadcast proof fn b_lg(a: real, b: real) ensures #![trigger rm(a, b)] (rm(a, b) == 0real) == (a == 0real || b == 0real), a != 0real && b != 0real ==> lg(rm(a, b)) == lg(a) + lg(b) && (rm(a, b) < 0real) == bxor(a < 0real, b < 0real) {
    axiom_lg(a, b); if rm(a, b) == 0real { lem_rm_zero(a, b); }
    assert(a != 0real && b != 0real ==> ((a * b < 0real) == ((a < 0real) != (b < 0real)))) by(nonlinear_arith); assert(a == 0real || b == 0real ==> a * b == 0real) by(nonlinear_arith);
}
pub broadcast proof fn b_lg_unit(a: real) ensures #![trigger lg(a)] a == 1real || a == -1real ==> lg(a) == 0real, a != 0real ==> lg(-a) == lg(a) { lem_lg_one(); if a != 0real { lem_lg_neg(a); } }
/// equality, proved by comparing sign and size
pub open spec fn mul_eq(a: real, b: real) -> bool { a == b }
pub broadcast proof fn b_mul_eq(a: real, b: real) ensures #![trigger mul_eq(a, b)] a == 0real && b == 0real ==> a == b, a != 0real && b != 0real && lg(a) == lg(b) && (a < 0real) == (b < 0real) ==> a == b { if a != 0real && b != 0real && lg(a) == lg(b) && (a < 0real) == (b < 0real) { lem_lg_inj(a, b); } }
pub broadcast group g_lg { b_lg, b_lg_unit, b_mul_eq, b_rm_int, b_rm_comm, b_rm_unit }
pub broadcast group g_ac { b_rm_comm, b_rm_assoc, b_rm_swap, b_rm_unit, b_rm_int }
}
pub use folded::*;
pub open spec fn ir(i: int) -> real { i as real }
pub open spec fn big(i: int) -> BigInt { BigInt { g: Ghost(i) } }
pub open spec fn fl(r: real) -> F64 { F64 { g: Ghost(r) } } //@real
//@ieee pub open spec fn fl(r: real) -> F64 { fd(if r == 0real { FV::Zero(false) } else { fround(r) }) }

BIGOP!(OpAdd, op_add, BigInt, BigInt, BigInt, big(self.g@ + o.g@), true)
BIGOP!(OpSub, op_sub, BigInt, BigInt, BigInt, big(self.g@ - o.g@), true)
BIGOP!(OpMul, op_mul, BigInt, BigInt, BigInt, big(self.g@ * o.g@), true)
BIGOP!(OpDiv, op_div, BigInt, BigInt, BigInt, big(tdiv(self.g@, o.g@)), o.g@ != 0)
BIGOP!(OpRem, op_rem, BigInt, BigInt, BigInt, big(trem(self.g@, o.g@)), o.g@ != 0)
impl OpNeg for BigInt { type O = BigInt; open spec fn op_neg__s(self) -> BigInt { big(-self.g@) } open spec fn op_neg__post(self, r: BigInt) -> bool { r == self.op_neg__s() } #[verifier::external_body] fn op_neg(self) -> (r: BigInt) { unimplemented!() } }
BIGOP!(OpAdd, op_add, F64, F64, F64, fl(self.g@ + o.g@), true) //@real
//@ieee BIGOP!(OpAdd, op_add, F64, F64, F64, fd(fadd(self.g@, o.g@)), true)
BIGOP!(OpSub, op_sub, F64, F64, F64, fl(self.g@ - o.g@), true) //@real
//@ieee BIGOP!(OpSub, op_sub, F64, F64, F64, fd(fsub(self.g@, o.g@)), true)
BIGOP!(OpMul, op_mul, F64, F64, F64, fl(rm(self.g@, o.g@)), true) //@real
//@ieee BIGOP!(OpMul, op_mul, F64, F64, F64, fd(fmul(self.g@, o.g@)), true)
BIGOP!(OpDiv, op_div, F64, F64, F64, fl(rdv(self.g@, o.g@)), true) //@real
//@ieee BIGOP!(OpDiv, op_div, F64, F64, F64, fd(fdiv(self.g@, o.g@)), true)
impl OpNeg for F64 { type O = F64; open spec fn op_neg__s(self) -> F64 { fl(-self.g@) } open spec fn op_neg__post(self, r: F64) -> bool { r == self.op_neg__s() } #[verifier::external_body] fn op_neg(self) -> (r: F64) { unimplemented!() } } //@real
//@ieee impl OpNeg for F64 { type O = F64; open spec fn op_neg__s(self) -> F64 { fd(fneg(self.g@)) } open spec fn op_neg__post(self, r: F64) -> bool { r == self.op_neg__s() } #[verifier::external_body] fn op_neg(self) -> (r: F64) { unimplemented!() } }

// ---------------------------------------------------------------------------- comparisons
pub trait SOrd<R>: Sized { spec fn slt(self, o: R) -> bool; spec fn sle(self, o: R) -> bool; spec fn sgt(self, o: R) -> bool; spec fn sge(self, o: R) -> bool; }
SORD!(BigInt, g@)
SORD!(F64, g@) //@real
//@ieee impl SOrd<F64> for F64 { open spec fn slt(self, o: F64) -> bool { flt(self.g@, o.g@) } open spec fn sle(self, o: F64) -> bool { flt(self.g@, o.g@) || feq(self.g@, o.g@) } open spec fn sgt(self, o: F64) -> bool { flt(o.g@, self.g@) } open spec fn sge(self, o: F64) -> bool { flt(o.g@, self.g@) || feq(self.g@, o.g@) } }
impl<'a, T: SOrd<T>> SOrd<&'a T> for &'a T { open spec fn slt(self, o: &'a T) -> bool { (*self).slt(*o) } open spec fn sle(self, o: &'a T) -> bool { (*self).sle(*o) } open spec fn sgt(self, o: &'a T) -> bool { (*self).sgt(*o) } open spec fn sge(self, o: &'a T) -> bool { (*self).sge(*o) } }
pub open spec fn int_ord(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn real_ord(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
EQ!(BigInt, *self == *o)
EQ!(BigUint, *self == *o)
EQ!(F64, *self == *o) //@real
//@ieee EQ!(F64, feq(self.g@, o.g@))
EQ!(VStr, *self == *o)
PORD!(BigInt, Some(int_ord(self.g@, o.g@)))
PORD!(F64, Some(real_ord(self.g@, o.g@))) //@real
//@ieee PORD!(F64, fpc(self.g@, o.g@))
#[derive(PartialEq, Eq, Structural)]
pub enum Sign { Minus, NoSign, Plus }

// ---------------------------------------------------------------------------- conversions
pub trait AsF64: Sized { spec fn as_f64__s(self) -> F64; fn as_f64(self) -> (r: F64) ensures r == self.as_f64__s(); }
ASF!(usize)
ASF!(isize)
ASF!(i64)
ASF!(i32)
pub trait AsInt: Sized { spec fn as_isize__s(self) -> isize; fn as_isize(self) -> (r: isize) ensures r == self.as_isize__s(); spec fn as_usize__s(self) -> usize; fn as_usize(self) -> (r: usize) ensures r == self.as_usize__s(); spec fn as_i64__s(self) -> i64; fn as_i64(self) -> (r: i64) ensures r == self.as_i64__s(); }
ASI!(usize)
ASI!(isize)
ASI!(i64)
ASI!(i32)
pub uninterp spec fn trunc_isize(r: real) -> isize; //@real
//@ieee pub uninterp spec fn trunc_isize(r: FV) -> isize;
pub uninterp spec fn trunc_usize(r: real) -> usize; //@real
//@ieee pub uninterp spec fn trunc_usize(r: FV) -> usize;
pub uninterp spec fn trunc_i64(r: real) -> i64; //@real
//@ieee pub uninterp spec fn trunc_i64(r: FV) -> i64;
impl AsInt for F64 {
    open spec fn as_isize__s(self) -> isize { trunc_isize(self.g@) }
    #[verifier::external_body] fn as_isize(self) -> (r: isize) { unimplemented!() }
    open spec fn as_usize__s(self) -> usize { trunc_usize(self.g@) }
    #[verifier::external_body] fn as_usize(self) -> (r: usize) { unimplemented!() }
    open spec fn as_i64__s(self) -> i64 { trunc_i64(self.g@) }
    #[verifier::external_body] fn as_i64(self) -> (r: i64) { unimplemented!() }
}
pub trait VAbs: Sized { spec fn vabs__s(self) -> Self; fn vabs(self) -> (r: Self) VABSREQ ensures r == self.vabs__s(); spec fn vabs__req(self) -> bool; }
impl VAbs for isize { open spec fn vabs__s(self) -> isize { if self >= 0 { self } else { (-self) as isize } } open spec fn vabs__req(self) -> bool { self > isize::MIN } #[verifier::external_body] fn vabs(self) -> (r: isize) { unimplemented!() } }
impl VAbs for F64 { open spec fn vabs__s(self) -> F64 { if self.g@ >= 0real { self } else { fl(-self.g@) } } open spec fn vabs__req(self) -> bool { true } #[verifier::external_body] fn vabs(self) -> (r: F64) { unimplemented!() } } //@real
//@ieee impl VAbs for F64 { open spec fn vabs__s(self) -> F64 { match self.g@ { FV::NInf => fd(FV::PInf), FV::Zero(_) => fd(FV::Zero(false)), FV::Fin(x) => if x < 0real { fd(FV::Fin(-x)) } else { self }, _ => self } } open spec fn vabs__req(self) -> bool { true } #[verifier::external_body] fn vabs(self) -> (r: F64) { unimplemented!() } }

// ---------------------------------------------------------------------------- numbers
pub uninterp spec fn rpow(b: real, m: real) -> real;
pub uninterp spec fn rlog(a: real, b: real) -> real;
pub open spec fn ipow(b: int, n: int) -> int decreases n { if n <= 0 { 1 } else { b * ipow(b, n - 1) } }
pub uninterp spec fn gcdi(a: int, b: int) -> int;
pub uninterp spec fn lcmi(a: int, b: int) -> int;
impl F64 {
    #[verifier::external_body] pub fn lit(g: Ghost<real>) -> (r: F64) ensures r == fl(g@) { unimplemented!() }
    STUB!(pub fn log(self, b: F64) -> F64, log__s, fl(rlog(self.g@, b.g@))) //@real
//@ieee     STUB!(pub fn log(self, b: F64) -> F64, log__s, fd(ffun(0, self.g@, b.g@)))
    STUB!(pub fn powf(self, b: F64) -> F64, powf__s, fl(rpow(self.g@, b.g@))) //@real
//@ieee     STUB!(pub fn powf(self, b: F64) -> F64, powf__s, fd(ffun(1, self.g@, b.g@)))
    STUB!(pub fn is_nan(self) -> bool, is_nan__s, false) //@real
//@ieee     STUB!(pub fn is_nan(self) -> bool, is_nan__s, self.g@ is NaN)
    STUB!(pub fn is_finite(self) -> bool, is_finite__s, true) //@real
//@ieee     STUB!(pub fn is_finite(self) -> bool, is_finite__s, fnum(self.g@))
    STUB!(pub fn is_infinite(self) -> bool, is_infinite__s, false) //@real
//@ieee     STUB!(pub fn is_infinite(self) -> bool, is_infinite__s, self.g@ is NInf || self.g@ is PInf)
//@ieee     STUB!(pub fn is_sign_negative(self) -> bool, is_sign_negative__s, match self.g@ { FV::NInf => true, FV::Zero(s) => s, FV::Fin(x) => x < 0real, FV::NaN(p) => p < 0, _ => false })
//@ieee     STUB!(pub fn is_sign_positive(self) -> bool, is_sign_positive__s, !self.is_sign_negative__s())
    pub uninterp spec fn infinity__u() -> F64;
    #[verifier::external_body] pub fn INFINITY() -> F64 { unimplemented!() } //@real
//@ieee     pub open spec fn INFINITY__s() -> F64 { fd(FV::PInf) } #[verifier::external_body] #[verifier::when_used_as_spec(INFINITY__s)] pub fn INFINITY() -> (r: F64) ensures r == fd(FV::PInf) { unimplemented!() }
    #[verifier::external_body] pub fn NEG_INFINITY() -> F64 { unimplemented!() } //@real
//@ieee     pub open spec fn NEG_INFINITY__s() -> F64 { fd(FV::NInf) } #[verifier::external_body] #[verifier::when_used_as_spec(NEG_INFINITY__s)] pub fn NEG_INFINITY() -> (r: F64) ensures r == fd(FV::NInf) { unimplemented!() }
    #[verifier::external_body] pub fn NAN() -> F64 { unimplemented!() }
    #[verifier::external_body] pub fn MAX() -> F64 { unimplemented!() }
    #[verifier::external_body] pub fn EPSILON() -> F64 { unimplemented!() }
}
pub trait BigFrom: Sized { spec fn bigfrom__s(self) -> int; }
impl BigFrom for int { open spec fn bigfrom__s(self) -> int { self } }
BIGFROM!(isize)
BIGFROM!(usize)
BIGFROM!(i32)
BIGFROM!(i64)
BIGFROM!(u32)
BIGFROM!(u64)
impl BigInt {
    pub open spec fn from__s<T: BigFrom>(v: T) -> BigInt { big(v.bigfrom__s()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(from__s)] pub fn from<T: BigFrom>(v: T) -> (r: BigInt) ensures r == BigInt::from__s(v) { unimplemented!() }
    STUB!(pub fn sign(&self) -> Sign, sign__s, if self.g@ < 0 { Sign::Minus } else if self.g@ == 0 { Sign::NoSign } else { Sign::Plus })
    STUB!(pub fn to_biguint(&self) -> Option<BigUint>, to_biguint__s, if self.g@ >= 0 { Some(BigUint { g: self.g }) } else { None })
    STUB!(pub fn is_negative(&self) -> bool, is_negative__s, self.g@ < 0)
    STUB!(pub fn is_positive(&self) -> bool, is_positive__s, self.g@ > 0)
    STUB!(pub fn is_zero(&self) -> bool, is_zero__s, self.g@ == 0)
    STUB!(pub fn is_one(&self) -> bool, is_one__s, self.g@ == 1)
    STUB!(pub fn vabs(&self) -> BigInt, vabs__s, big(if self.g@ >= 0 { self.g@ } else { -self.g@ }))
}
pub mod num {
    use super::*;
    pub use super::BigUint;
    pub use super::BigInt;
    pub mod traits {
        use super::*;
        pub struct ToPrimitive {}
        impl ToPrimitive {
            pub open spec fn to_isize__s(b: &super::super::BigInt) -> Option<isize> { if isize::MIN <= b.g@ <= isize::MAX { Some(b.g@ as isize) } else { None } }
            #[verifier::external_body] #[verifier::when_used_as_spec(to_isize__s)] pub fn to_isize(b: &super::super::BigInt) -> (r: Option<isize>) ensures r == Self::to_isize__s(b) { unimplemented!() }
            pub open spec fn to_f64__s(b: &super::super::BigInt) -> Option<super::super::F64> { Some(super::super::fl(super::super::ir(b.g@))) }
            #[verifier::external_body] #[verifier::when_used_as_spec(to_f64__s)] pub fn to_f64(b: &super::super::BigInt) -> (r: Option<super::super::F64>) ensures r == Self::to_f64__s(b) { unimplemented!() }
        }
        #[verifier::reject_recursive_types(T)]
        pub struct Pow<T> { pub x: Option<T> }
        impl<T> Pow<T> {
            pub open spec fn pow__s(b: super::super::BigInt, e: super::super::BigUint) -> super::super::BigInt { super::super::big(super::super::ipow(b.g@, e.g@)) }
            #[verifier::external_body] #[verifier::when_used_as_spec(pow__s)] pub fn pow(b: super::super::BigInt, e: super::super::BigUint) -> (r: super::super::BigInt) ensures r == Self::pow__s(b, e) { unimplemented!() }
        }
    }
    pub uninterp spec fn decode(f: super::F64) -> (u64, i16, i8);
    pub struct Float {}
    impl Float { pub open spec fn integer_decode__s(f: super::F64) -> (u64, i16, i8) { decode(f) } #[verifier::external_body] #[verifier::when_used_as_spec(integer_decode__s)] pub fn integer_decode(f: super::F64) -> (r: (u64, i16, i8)) ensures r == decode(f) { unimplemented!() } }
    pub mod integer {
        use super::*;
        pub open spec fn gcd__s(a: super::super::BigInt, b: super::super::BigInt) -> super::super::BigInt { super::super::big(super::super::gcdi(a.g@, b.g@)) }
        #[verifier::external_body] #[verifier::when_used_as_spec(gcd__s)] pub fn gcd(a: super::super::BigInt, b: super::super::BigInt) -> (r: super::super::BigInt) ensures r == gcd__s(a, b) { unimplemented!() }
        pub open spec fn lcm__s(a: super::super::BigInt, b: super::super::BigInt) -> super::super::BigInt { super::super::big(super::super::lcmi(a.g@, b.g@)) }
        #[verifier::external_body] #[verifier::when_used_as_spec(lcm__s)] pub fn lcm(a: super::super::BigInt, b: super::super::BigInt) -> (r: super::super::BigInt) ensures r == lcm__s(a, b) { unimplemented!() }
    }
}

// ---------------------------------------------------------------------------- strings
impl VStr {
    pub uninterp spec fn lit__u(h: int) -> VStr;
    #[verifier::external_body] pub fn lit(h: Ghost<int>) -> (r: &'static VStr) { unimplemented!() }
    STUB!(pub fn from(s: &VStr) -> VStr, from__s, *s)
}
#[verifier::external_body] pub fn vformat() -> VStr { unimplemented!() }
/// lengths of two listings in memory (each at most isize::MAX)
#[verifier::external_body] pub fn len_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body] pub fn vpanic<T>() -> (r: T) PANICREQ ensures false { unimplemented!() }
#[verifier::external_body] pub fn vassert(b: bool) VASSERTREQ ensures b { unimplemented!() }

// ---------------------------------------------------------------------------- comparing, hashing and showing
pub trait VEqS: Sized { spec fn veq__s(&self, o: &Self) -> bool; }
pub trait VEq: VEqS { fn veq(&self, o: &Self) -> (r: bool) ensures r == self.veq__s(o); }
VEQ!(usize, *self == *o)
VEQ!(isize, *self == *o)
VEQ!(bool, *self == *o)
VEQ!(BigInt, self.g@ == o.g@)
VEQ!(F64, self.g@ == o.g@) //@real
//@ieee VEQ!(F64, feq(self.g@, o.g@))
VEQ!(VStr, self.g@ == o.g@)
VEQ!(Ordering, *self == *o)
pub trait VCmpS: Sized { spec fn vcmp__s(&self, o: &Self) -> Ordering; }
pub trait VCmp: VCmpS { fn vcmp(&self, o: &Self) -> (r: Ordering) ensures r == self.vcmp__s(o); }
pub trait VPCmpS: Sized { spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering>; }
pub trait VPCmp: VPCmpS { fn vpartial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == self.vpartial_cmp__s(o); }
pub open spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() { if a.len() == 0 && b.len() == 0 { Ordering::Equal } else if a.len() == 0 { Ordering::Less } else if b.len() == 0 { Ordering::Greater } else { match int_ord(a[0] as int, b[0] as int) { Ordering::Equal => str_ord(a.drop_first(), b.drop_first()), x => x } } }
CMP!(usize, int_ord(*self as int, *o as int))
CMP!(isize, int_ord(*self as int, *o as int))
CMP!(bool, int_ord(if *self { 1 } else { 0 }, if *o { 1 } else { 0 }))
CMP!(BigInt, int_ord(self.g@, o.g@))
CMP!(VStr, str_ord(self.g@, o.g@))
impl VPCmpS for F64 { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(real_ord(self.g@, o.g@)) } } //@real
//@ieee impl VPCmpS for F64 { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { fpc(self.g@, o.g@) } }
//@ieee /// the order in which IEEE 754 puts all doubles
//@ieee pub open spec fn frank(a: FV) -> int { match a { FV::NaN(p) => if p < 0 { -1 } else { 1 }, _ => 0 } }
//@ieee pub uninterp spec fn ftot(a: FV, b: FV) -> Ordering;
//@ieee impl F64 { STUB!(pub fn total_cmp(&self, o: &F64) -> Ordering, total_cmp__s, if feq(self.g@, o.g@) && self.g@ == o.g@ { Ordering::Equal } else if flt(self.g@, o.g@) { Ordering::Less } else if flt(o.g@, self.g@) { Ordering::Greater } else { ftot(self.g@, o.g@) }) }
impl VPCmp for F64 { #[verifier::external_body] fn vpartial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
/// what a hasher has been fed
pub enum HTok { Int(int), Big(int), Str(Seq<char>), Disc(int) }
pub struct HState { pub t: Ghost<Seq<HTok>> }
pub trait VHashS: Sized { spec fn hash__s(&self) -> Seq<HTok>; }
pub trait VHash: VHashS { fn vhash(&self, state: &mut HState) ensures final(state).t@ =~= old(state).t@ + self.hash__s(); }
HASH!(u64, seq![HTok::Int(*self as int)])
HASH!(i64, seq![HTok::Int(*self as int)])
HASH!(i16, seq![HTok::Int(*self as int)])
HASH!(i8, seq![HTok::Int(*self as int)])
HASH!(usize, seq![HTok::Int(*self as int)])
HASH!(isize, seq![HTok::Int(*self as int)])
HASH!(bool, seq![HTok::Int(if *self { 1 } else { 0 })])
HASH!(BigInt, seq![HTok::Big(self.g@)])
HASH!(VStr, seq![HTok::Str(self.g@)])
pub trait VFmt: Sized { spec fn vfmt__s(&self) -> VStr; fn vfmt(&self) -> (r: VStr) ensures r == self.vfmt__s(); }
impl VFmt for VStr { open spec fn vfmt__s(&self) -> VStr { *self } #[verifier::external_body] fn vfmt(&self) -> (r: VStr) { unimplemented!() } }
pub uninterp spec fn fmt_int(i: int) -> VStr;
pub uninterp spec fn fmt_f64(f: F64) -> VStr;
impl VFmt for BigInt { open spec fn vfmt__s(&self) -> VStr { fmt_int(self.g@) } #[verifier::external_body] fn vfmt(&self) -> (r: VStr) { unimplemented!() } }
impl VFmt for F64 { open spec fn vfmt__s(&self) -> VStr { fmt_f64(*self) } #[verifier::external_body] fn vfmt(&self) -> (r: VStr) { unimplemented!() } }

// ---------------------------------------------------------------------------- options
pub trait OptExt<T>: Sized { spec fn vunwrap__s(self) -> T; fn vunwrap(self) -> (r: T) UNWRAPREQ ensures r == self.vunwrap__s(), self.is_some__b(); spec fn is_some__b(self) -> bool; }
impl<T> OptExt<T> for Option<T> { open spec fn vunwrap__s(self) -> T { self->Some_0 } open spec fn is_some__b(self) -> bool { self is Some } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
pub trait OptRef<T>: Sized { spec fn vref__s(&self) -> Option<&T>; fn vref(&self) -> (r: Option<&T>) ensures r == self.vref__s(); }
impl<T> OptRef<T> for Option<T> { open spec fn vref__s(&self) -> Option<&T> { match self { Some(x) => Some(x), None => None } } #[verifier::external_body] fn vref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait BoxRef<T>: Sized { spec fn vref__s(&self) -> &T; fn vref(&self) -> (r: &T) ensures r == self.vref__s(); }
impl<T> BoxRef<T> for Box<T> { open spec fn vref__s(&self) -> &T { &**self } #[verifier::external_body] fn vref(&self) -> (r: &T) { unimplemented!() } }

// ---------------------------------------------------------------------------- lists
impl<T> Vec<T> {
    #[verifier::external_body] pub fn new() -> (r: Vec<T>) ensures r == (Vec::<T> { g: Ghost(Seq::empty()) }) { unimplemented!() }
    pub open spec fn new__s() -> Vec<T> { Vec { g: Ghost(Seq::empty()) } }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self).g@ == old(self).g@.push(x) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<T>) ensures old(self).g@.len() == 0 ==> r is None && final(self).g@ == old(self).g@, old(self).g@.len() > 0 ==> r == Some(old(self).g@.last()) && final(self).g@ == old(self).g@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn append(&mut self, x: &mut Vec<T>) ensures final(self).g@ == old(self).g@ + old(x).g@, final(x).g@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, x: Vec<T>) ensures final(self).g@ == old(self).g@ + x.g@ { unimplemented!() }
    STUB!(pub fn vit(&self) -> It<T>, vit__s, It { g: self.g })
    STUB!(pub fn into_vit(self) -> ItO<T>, into_vit__s, ItO { g: self.g })
    STUB!(pub fn is_empty(&self) -> bool, is_empty__s, self.g@.len() == 0)
    STUB!(pub fn first(&self) -> Option<&T>, first__s, if self.g@.len() > 0 { Some(&self.g@[0]) } else { None })
    STUB!(pub fn last(&self) -> Option<&T>, last__s, if self.g@.len() > 0 { Some(&self.g@.last()) } else { None })
    STUB!(pub fn to_vec(&self) -> Vec<T>, to_vec__s, *self)
    pub open spec fn len__i(&self) -> int { self.g@.len() as int }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.len__i() { unimplemented!() }
    #[verifier::external_body] pub fn vidx(&self, i: usize) -> (r: &T) IDXREQ ensures i < self.g@.len() ==> *r == self.g@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn for_it(self) -> (r: ItO<T>) ensures r.g@ == self.g@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, i: usize, x: T) INSREQ ensures i <= old(self).g@.len() ==> final(self).g@ == old(self).g@.insert(i as int, x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, i: usize) -> (r: T) REMREQ ensures i < old(self).g@.len() ==> final(self).g@ == old(self).g@.remove(i as int) && r == old(self).g@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn swap_remove(&mut self, i: usize) -> (r: T) REMREQ ensures i < old(self).g@.len() ==> r == old(self).g@[i as int] && final(self).g@ == old(self).g@.update(i as int, old(self).g@.last()).drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn swap(&mut self, i: usize, j: usize) SWAPREQ ensures i < old(self).g@.len() && j < old(self).g@.len() ==> final(self).g@ == old(self).g@.update(i as int, old(self).g@[j as int]).update(j as int, old(self).g@[i as int]) { unimplemented!() }
    #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self).g@ == if n < old(self).g@.len() { old(self).g@.take(n as int) } else { old(self).g@ } { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self).g@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Vec<T>) INSREQN ensures n <= old(self).g@.len() ==> final(self).g@ == old(self).g@.take(n as int) && r.g@ == old(self).g@.skip(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn extend_from_slice(&mut self, x: &Vec<T>) ensures final(self).g@ == old(self).g@ + x.g@ { unimplemented!() }
    RETAIN!()
    STUB!(pub fn get_at(&self, i: usize) -> Option<&T>, get_at__s, if i < self.g@.len() { Some(&self.g@[i as int]) } else { None })
}
impl<T> It<T> {
    STUB!(pub fn cloned(self) -> ItO<T>, cloned__s, ItO { g: self.g })
    STUB!(pub fn copied(self) -> ItO<T>, copied__s, ItO { g: self.g })
    STUB!(pub fn vit(self) -> It<T>, vit__s, self)
    STUB!(pub fn into_vit(self) -> It<T>, into_vit__s, self)
    pub open spec fn skip__s(self, n: int) -> It<T> { It { g: Ghost(if 0 <= n <= self.g@.len() { self.g@.skip(n) } else { Seq::<T>::empty() }) } }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>) ensures r == self.skip__s(n as int) { unimplemented!() }
    pub open spec fn take__s(self, n: int) -> It<T> { It { g: Ghost(if 0 <= n <= self.g@.len() { self.g@.take(n) } else { self.g@ }) } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<T>) ensures r == self.take__s(n as int) { unimplemented!() }
    STUB!(pub fn chain(self, o: It<T>) -> It<T>, chain__s, It { g: Ghost(self.g@ + o.g@) })
    STUB!(pub fn rev(self) -> It<T>, rev__s, It { g: Ghost(self.g@.reverse()) })
    STUB!(pub fn for_it(self) -> It<T>, for_it__s, self)
    ITER!(It, &T, Option<&T>, Some(&self.g@.filter(p)[0]), x)
    #[verifier::external_body] pub fn has_next(&self) -> (r: bool) ensures r == (self.g@.len() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn take_next(&mut self) -> (r: &T) ensures old(self).g@.len() > 0 ==> *r == old(self).g@.first() && final(self).g@ == old(self).g@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn vnext<'a>(&mut self) -> (r: Option<&'a T>) ensures old(self).g@.len() > 0 ==> r is Some && *r->Some_0 == old(self).g@.first() && final(self).g@ == old(self).g@.drop_first(), old(self).g@.len() == 0 ==> r is None && final(self).g@ == old(self).g@ { unimplemented!() }
}
impl<T> ItO<T> {
    STUB!(pub fn vit(self) -> ItO<T>, vit__s, self)
    STUB!(pub fn into_vit(self) -> ItO<T>, into_vit__s, self)
    pub open spec fn skip__s(self, n: int) -> ItO<T> { ItO { g: Ghost(if 0 <= n <= self.g@.len() { self.g@.skip(n) } else { Seq::<T>::empty() }) } }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: ItO<T>) ensures r == self.skip__s(n as int) { unimplemented!() }
    pub open spec fn take__s(self, n: int) -> ItO<T> { ItO { g: Ghost(if 0 <= n <= self.g@.len() { self.g@.take(n) } else { self.g@ }) } }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: ItO<T>) ensures r == self.take__s(n as int) { unimplemented!() }
    pub open spec fn chain__s<I: IntoItO<T>>(self, o: I) -> ItO<T> { ItO { g: Ghost(self.g@ + o.ito__s()) } }
    #[verifier::external_body] pub fn chain<I: IntoItO<T>>(self, o: I) -> (r: ItO<T>) ensures r == self.chain__s(o) { unimplemented!() }
    STUB!(pub fn rev(self) -> ItO<T>, rev__s, ItO { g: Ghost(self.g@.reverse()) })
    STUB!(pub fn for_it(self) -> ItO<T>, for_it__s, self)
    ITER!(ItO, T, Option<T>, Some(self.g@.filter(p)[0]), x)
    pub open spec fn collect__s<C: FromIt<T>>(self) -> C { C::from_it__s(self) }
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures r == C::from_it__s(self) { C::from_it(self) }
    #[verifier::external_body] pub fn has_next(&self) -> (r: bool) ensures r == (self.g@.len() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn take_next(&mut self) -> (r: T) ensures old(self).g@.len() > 0 ==> r == old(self).g@.first() && final(self).g@ == old(self).g@.drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn vnext(&mut self) -> (r: Option<T>) ensures old(self).g@.len() > 0 ==> r == Some(old(self).g@.first()) && final(self).g@ == old(self).g@.drop_first(), old(self).g@.len() == 0 ==> r is None && final(self).g@ == old(self).g@ { unimplemented!() }
}
pub trait IntoItO<T>: Sized { spec fn ito__s(self) -> Seq<T>; }
impl<T> IntoItO<T> for Vec<T> { open spec fn ito__s(self) -> Seq<T> { self.g@ } }
impl<T> IntoItO<T> for ItO<T> { open spec fn ito__s(self) -> Seq<T> { self.g@ } }
pub trait FromIt<T>: Sized { spec fn from_it__s(s: ItO<T>) -> Self; fn from_it(s: ItO<T>) -> (r: Self) ensures r == Self::from_it__s(s); }
impl<T> FromIt<T> for Vec<T> { open spec fn from_it__s(s: ItO<T>) -> Self { Vec { g: s.g } } #[verifier::external_body] fn from_it(s: ItO<T>) -> (r: Self) { unimplemented!() } }
/// the sorted listing of a heap: some rearrangement of what it was filled with
pub uninterp spec fn sorted__<T>(s: Seq<T>) -> Seq<T>;
#[verifier::external_body] pub broadcast proof fn axiom_sorted<T>(s: Seq<T>) ensures #[trigger] sorted__(s).to_multiset() == s.to_multiset() {}
impl<T> FromIt<T> for BinaryHeap<T> { open spec fn from_it__s(s: ItO<T>) -> Self { BinaryHeap { s: Ghost(sorted__(s.g@)) } } #[verifier::external_body] fn from_it(s: ItO<T>) -> (r: Self) { unimplemented!() } }
impl<T> BinaryHeap<T> {
    STUB!(pub fn into_sorted_vec(self) -> Vec<T>, into_sorted_vec__s, Vec { g: self.s })
    pub open spec fn len__i(&self) -> int { self.s@.len() as int }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.len__i() { unimplemented!() }
    STUB!(pub fn is_empty(&self) -> bool, is_empty__s, self.s@.len() == 0)
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.s@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self).s@ == sorted__(old(self).s@.push(x)) { unimplemented!() }
    STUB!(pub fn into_vec(self) -> Vec<T>, into_vec__s, Vec { g: Ghost(anyorder__(self.s@)) })
    STUB!(pub fn vit(&self) -> It<T>, vit__s, It { g: Ghost(anyorder__(self.s@)) })
    STUB!(pub fn into_vit(self) -> ItO<T>, into_vit__s, ItO { g: Ghost(anyorder__(self.s@)) })
}
/// a heap read without sorting: some rearrangement
pub uninterp spec fn anyorder__<T>(s: Seq<T>) -> Seq<T>;
#[verifier::external_body] pub broadcast proof fn axiom_anyorder<T>(s: Seq<T>) ensures #[trigger] anyorder__(s).to_multiset() == s.to_multiset() {}

// ---------------------------------------------------------------------------- maps
/// a map is identified with a listing of its entries, in no particular order, keys being distinct
pub struct HashMap<K, V> { pub g: Ghost<Seq<(K, V)>> }
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn mpos__<K, V>(s: Seq<(K, V)>, k: K) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn mhas__<K, V>(s: Seq<(K, V)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
impl<K, V> HashMap<K, V> {
    pub open spec fn new__s() -> HashMap<K, V> { HashMap { g: Ghost(Seq::empty()) } }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r == Self::new__s() { unimplemented!() }
    pub open spec fn contains_key__s(&self, k: &K) -> bool { mhas__(self.g@, *k) }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == mhas__(self.g@, *k) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures ({ let s = old(self).g@; let i = mpos__(s, *k); if mhas__(s, *k) { 0 <= i < s.len() && s[i].0 == *k && r == Some(s[i].1) && final(self).g@ == s.remove(i) } else { r is None && final(self).g@ == s } }) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures ({ let s = old(self).g@; let i = mpos__(s, k); if mhas__(s, k) { 0 <= i < s.len() && s[i].0 == k && r == Some(s[i].1) && final(self).g@ == s.update(i, (k, v)) } else { r is None && final(self).g@ == s.push((k, v)) } }) { unimplemented!() }
    pub open spec fn len__i(&self) -> int { self.g@.len() as int }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.len__i() { unimplemented!() }
    STUB!(pub fn is_empty(&self) -> bool, is_empty__s, self.g@.len() == 0)
    STUB!(pub fn into_vit(self) -> ItO<(K, V)>, into_vit__s, ItO { g: self.g })
    STUB!(pub fn vit(&self) -> It<(K, V)>, vit__s, It { g: self.g })
    #[verifier::external_body] pub fn for_it(self) -> (r: ItO<(K, V)>) ensures r.g@ == self.g@ { unimplemented!() }
}
