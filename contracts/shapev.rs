// ===================== the same, of variables of the types loops work with =====================
pub trait ShV: Sized { spec fn hh(self) -> bool; spec fn sp(self) -> bool; spec fn sz(self) -> bool; spec fn nl(self) -> bool; spec fn iv(self) -> bool; spec fn emp(self) -> bool; spec fn u0(self) -> bool; spec fn u1(self) -> bool; spec fn nz(self) -> bool; spec fn dm(self) -> bool; spec fn sh(self) -> bool; }
SHSEQ!(Vec<Expression>)
SHSEQ!(It<Expression>)
SHSEQ!(ItO<Expression>)
impl ShV for Expression { open spec fn hh(self) -> bool { shp(self) } open spec fn sp(self) -> bool { spos(self) } open spec fn sz(self) -> bool { szp(self) } open spec fn nl(self) -> bool { true } open spec fn iv(self) -> bool { self is Integer } open spec fn emp(self) -> bool { true } open spec fn u0(self) -> bool { true } open spec fn u1(self) -> bool { true } open spec fn nz(self) -> bool { true } open spec fn dm(self) -> bool { dom(self) } open spec fn sh(self) -> bool { shp(self) && !zero_lit(self) } }
impl ShV for Symbol<BigInt> { open spec fn hh(self) -> bool { true } open spec fn sp(self) -> bool { self.data.g@ > 0 } open spec fn sz(self) -> bool { self.data.g@ >= 0 } open spec fn nl(self) -> bool { true } open spec fn iv(self) -> bool { true } open spec fn emp(self) -> bool { true } open spec fn u0(self) -> bool { true } open spec fn u1(self) -> bool { true } open spec fn nz(self) -> bool { self.data.g@ != 0 } open spec fn dm(self) -> bool { true } open spec fn sh(self) -> bool { self.data.g@ != 0 } }
impl ShV for Symbol<F64> { open spec fn hh(self) -> bool { true } open spec fn sp(self) -> bool { self.data.g@ > 0real } open spec fn sz(self) -> bool { self.data.g@ >= 0real } open spec fn nl(self) -> bool { true } open spec fn iv(self) -> bool { true } open spec fn emp(self) -> bool { true } open spec fn u0(self) -> bool { self.data.g@ == 0real } open spec fn u1(self) -> bool { self.data.g@ == 1real } open spec fn nz(self) -> bool { self.data.g@ != 0real } open spec fn dm(self) -> bool { true } open spec fn sh(self) -> bool { self.data.g@ != 0real } }
