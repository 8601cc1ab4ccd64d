// ===================== equality and order, where constants are doubles =====================
// Constants compare as doubles do (family K proves this of the code); nothing is asked of what equality of expressions means.
EQ!(Symbol<BigInt>, self.data.g@ == o.data.g@)
EQ!(Symbol<F64>, feq(self.data.g@, o.data.g@))
EQ!(Symbol<VStr>, self.data == o.data)
pub uninterp spec fn same__e(a: Expression, b: Expression) -> bool;
pub uninterp spec fn same__c(a: CommutativeAssociation, b: CommutativeAssociation) -> bool;
pub uninterp spec fn same__a(a: AssociativeOperation, b: AssociativeOperation) -> bool;
EQ!(Expression, same__e(*self, *o))
EQ!(CommutativeAssociation, same__c(*self, *o))
EQ!(AssociativeOperation, same__a(*self, *o))
PORD!(Symbol<BigInt>, Some(int_ord(self.data.g@, o.data.g@)))
PORD!(Symbol<F64>, fpc(self.data.g@, o.data.g@))
SORD!(Symbol<BigInt>, data.g@)
impl SOrd<Symbol<F64>> for Symbol<F64> { open spec fn slt(self, o: Symbol<F64>) -> bool { flt(self.data.g@, o.data.g@) } open spec fn sle(self, o: Symbol<F64>) -> bool { flt(self.data.g@, o.data.g@) || feq(self.data.g@, o.data.g@) } open spec fn sgt(self, o: Symbol<F64>) -> bool { flt(o.data.g@, self.data.g@) } open spec fn sge(self, o: Symbol<F64>) -> bool { flt(o.data.g@, self.data.g@) || feq(self.data.g@, o.data.g@) } }
