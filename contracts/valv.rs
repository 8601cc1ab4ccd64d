// ===================== what the values of variables come to =====================
pub trait SumV: Sized { spec fn sv(self) -> real; }
pub trait ProdV: Sized { spec fn pv(self) -> real; }
impl SumV for Vec<Expression> { open spec fn sv(self) -> real { sumv(self.g@) } }
impl SumV for It<Expression> { open spec fn sv(self) -> real { sumv(self.g@) } }
impl SumV for ItO<Expression> { open spec fn sv(self) -> real { sumv(self.g@) } }
impl SumV for Expression { open spec fn sv(self) -> real { eval(self) } }
impl SumV for Symbol<BigInt> { open spec fn sv(self) -> real { ir(self.data.g@) } }
impl SumV for Symbol<F64> { open spec fn sv(self) -> real { self.data.g@ } }
impl ProdV for Vec<Expression> { open spec fn pv(self) -> real { prodv(self.g@) } }
impl ProdV for It<Expression> { open spec fn pv(self) -> real { prodv(self.g@) } }
impl ProdV for ItO<Expression> { open spec fn pv(self) -> real { prodv(self.g@) } }
impl ProdV for Expression { open spec fn pv(self) -> real { eval(self) } }
impl ProdV for Symbol<BigInt> { open spec fn pv(self) -> real { ir(self.data.g@) } }
impl ProdV for Symbol<F64> { open spec fn pv(self) -> real { self.data.g@ } }
impl<T: SumV> SumV for &T { open spec fn sv(self) -> real { (*self).sv() } }
