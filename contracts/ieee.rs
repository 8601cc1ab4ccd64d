// ===================== doubles as doubles =====================
/// constants that are equal are fed alike to a hasher
pub proof fn ieee_hash_equal(a: Symbol<F64>, b: Symbol<F64>) requires feq(a.data.g@, b.data.g@) ensures a.hash__s() == b.hash__s() {
    if fval(a.data.g@) != 0real { assert(a.data.g@ == b.data.g@ || (a.data.g@ is Fin && b.data.g@ is Fin)); }
}
/// constants that are equal are shown alike
pub proof fn ieee_text_equal(a: Symbol<F64>, b: Symbol<F64>) requires feq(a.data.g@, b.data.g@) ensures a.label__s() == b.label__s() {
    if fval(a.data.g@) != 0real { assert(a.data.g@ == b.data.g@ || (a.data.g@ is Fin && b.data.g@ is Fin)); }
}
/// the comparisons exclude each other, and one holds of any two numbers
pub proof fn ieee_order(a: FV, b: FV, c: FV)
    ensures feq(a, b) == feq(b, a), !(feq(a, b) && flt(a, b)), !(flt(a, b) && flt(b, a)), !(a is NaN) && !(b is NaN) ==> feq(a, b) || flt(a, b) || flt(b, a), flt(a, b) && flt(b, c) ==> flt(a, c), feq(a, b) && feq(b, c) ==> feq(a, c) {}
pub proof fn vacuity_ieee() ensures false {}
// ---- equality, order and hashing of constants (beside the lemmas above)
impl VEqS for Symbol<F64> { open spec fn veq__s(&self, o: &Self) -> bool { feq(self.data.g@, o.data.g@) } }
impl VCmpS for Symbol<F64> { open spec fn vcmp__s(&self, o: &Self) -> Ordering { match fpc(self.data.g@, o.data.g@) { Some(x) => x, None => Ordering::Equal } } }
impl VPCmpS for Symbol<F64> { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { fpc(self.data.g@, o.data.g@) } }
impl VHashS for Symbol<F64> { open spec fn hash__s(&self) -> Seq<HTok> { let d = num::decode(if feq(self.data.g@, FV::Zero(false)) { fl(0real) } else { self.data }); seq![HTok::Int(d.0 as int)] + seq![HTok::Int(d.1 as int)] + seq![HTok::Int(d.2 as int)] } }
