// ===================== equality and order of the crate's own types =====================
// Two expressions are equal when they are built alike; family O proves this of the code (property C09).
pub trait Zero__ {}
impl<T: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl for Symbol<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T: PartialEq> PartialEq for Symbol<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl<T: PartialEq> Eq for Symbol<T> {}
EQ!(Expression, *self == *o)
EQ!(CommutativeAssociation, *self == *o)
EQ!(AssociativeOperation, *self == *o)
PORD!(Symbol<BigInt>, Some(int_ord(self.data.g@, o.data.g@)))
PORD!(Symbol<F64>, Some(real_ord(self.data.g@, o.data.g@)))
SORD!(Symbol<BigInt>, data.g@)
SORD!(Symbol<F64>, data.g@)
