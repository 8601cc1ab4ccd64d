// ===================== equality, order and hashing of the crate's own types =====================
// Equal means: built alike (both zeros of f64 count as one; not-a-number is left aside).
impl VEqS for Symbol<BigInt> { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for Symbol<F64> { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for Symbol<VStr> { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for Expression { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for Operation { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for AssociativeOperation { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }
impl VEqS for CommutativeAssociation { open spec fn veq__s(&self, o: &Self) -> bool { *self == *o } }

// ---- the order: by kind, then by parts
pub open spec fn lex(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, x => x } }
pub open spec fn cmps(a: Expression, b: Expression) -> Ordering decreases a, 1int {
    match (a, b) {
        (Expression::Variable(x), Expression::Variable(y)) => str_ord(x.data.g@, y.data.g@),
        (Expression::Integer(x), Expression::Integer(y)) => int_ord(x.data.g@, y.data.g@),
        (Expression::Real(x), Expression::Real(y)) => real_ord(x.data.g@, y.data.g@),
        (Expression::Power(x), Expression::Power(y)) => lex(cmps(*x.argument, *y.argument), cmps(*x.modifier, *y.modifier)),
        (Expression::Logarithm(x), Expression::Logarithm(y)) => lex(cmps(*x.argument, *y.argument), cmps(*x.modifier, *y.modifier)),
        (Expression::Sine(x), Expression::Sine(y)) => cmps(*x.argument, *y.argument),
        (Expression::Cossine(x), Expression::Cossine(y)) => cmps(*x.argument, *y.argument),
        (Expression::Multiplication(x), Expression::Multiplication(y)) => lex(int_ord(x.items.s@.len() as int, y.items.s@.len() as int), cmpseq(x.items.s@, y.items.s@)),
        (Expression::Addition(x), Expression::Addition(y)) => lex(int_ord(x.items.s@.len() as int, y.items.s@.len() as int), cmpseq(x.items.s@, y.items.s@)),
        _ => int_ord(a.id__s() as int, b.id__s() as int),
    }
}
/// of listings of the same length
pub open spec fn cmpseq(s: Seq<Expression>, t: Seq<Expression>) -> Ordering decreases s, s.len() {
    if s.len() == 0 || t.len() == 0 { Ordering::Equal } else { lex(cmps(s.first(), t.first()), cmpseq(s.drop_first(), t.drop_first())) }
}
impl VCmpS for Symbol<BigInt> { open spec fn vcmp__s(&self, o: &Self) -> Ordering { int_ord(self.data.g@, o.data.g@) } }
impl VPCmpS for Symbol<BigInt> { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(int_ord(self.data.g@, o.data.g@)) } }
impl VCmpS for Symbol<F64> { open spec fn vcmp__s(&self, o: &Self) -> Ordering { real_ord(self.data.g@, o.data.g@) } }
impl VPCmpS for Symbol<F64> { uninterp spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering>; }
impl VCmpS for Symbol<VStr> { open spec fn vcmp__s(&self, o: &Self) -> Ordering { str_ord(self.data.g@, o.data.g@) } }
impl VPCmpS for Symbol<VStr> { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(str_ord(self.data.g@, o.data.g@)) } }
impl VCmpS for Expression { open spec fn vcmp__s(&self, o: &Self) -> Ordering { cmps(*self, *o) } }
impl VPCmpS for Expression { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(cmps(*self, *o)) } }
impl VCmpS for Operation { open spec fn vcmp__s(&self, o: &Self) -> Ordering { cmps(*self.argument, *o.argument) } }
impl VPCmpS for Operation { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(cmps(*self.argument, *o.argument)) } }
impl VCmpS for AssociativeOperation { open spec fn vcmp__s(&self, o: &Self) -> Ordering { lex(cmps(*self.argument, *o.argument), cmps(*self.modifier, *o.modifier)) } }
impl VPCmpS for AssociativeOperation { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(lex(cmps(*self.argument, *o.argument), cmps(*self.modifier, *o.modifier))) } }
impl VCmpS for CommutativeAssociation { open spec fn vcmp__s(&self, o: &Self) -> Ordering { lex(int_ord(self.items.s@.len() as int, o.items.s@.len() as int), cmpseq(self.items.s@, o.items.s@)) } }
impl VPCmpS for CommutativeAssociation { open spec fn vpartial_cmp__s(&self, o: &Self) -> Option<Ordering> { Some(lex(int_ord(self.items.s@.len() as int, o.items.s@.len() as int), cmpseq(self.items.s@, o.items.s@))) } }

// ---- what is fed to a hasher
pub open spec fn hs(e: Expression) -> Seq<HTok> decreases e {
    seq![HTok::Disc(e.disc__s())] + match e {
        Expression::Variable(x) => x.hash__s(),
        Expression::Integer(x) => x.hash__s(),
        Expression::Real(x) => x.hash__s(),
        Expression::Multiplication(x) => hseq(x.items.s@),
        Expression::Addition(x) => hseq(x.items.s@),
        Expression::Power(x) => hs(*x.argument) + hs(*x.modifier),
        Expression::Logarithm(x) => hs(*x.argument) + hs(*x.modifier),
        Expression::Sine(x) => hs(*x.argument),
        Expression::Cossine(x) => hs(*x.argument),
    }
}
pub open spec fn hseq(s: Seq<Expression>) -> Seq<HTok> decreases s, s.len() { if s.len() == 0 { Seq::empty() } else { hs(s.first()) + hseq(s.drop_first()) } }
impl HState { #[verifier::external_body] pub fn disc(&mut self, e: &Expression) ensures final(self).t@ == old(self).t@ + seq![HTok::Disc(e.disc__s())] { unimplemented!() } }
impl VHashS for Symbol<BigInt> { open spec fn hash__s(&self) -> Seq<HTok> { seq![HTok::Big(self.data.g@)] } }
impl VHashS for Symbol<VStr> { open spec fn hash__s(&self) -> Seq<HTok> { seq![HTok::Str(self.data.g@)] } }
impl VHashS for Symbol<F64> { open spec fn hash__s(&self) -> Seq<HTok> { let d = num::decode(self.data); seq![HTok::Int(d.0 as int)] + seq![HTok::Int(d.1 as int)] + seq![HTok::Int(d.2 as int)] } }
impl VHashS for Operation { open spec fn hash__s(&self) -> Seq<HTok> { hs(*self.argument) } }
impl VHashS for AssociativeOperation { open spec fn hash__s(&self) -> Seq<HTok> { hs(*self.argument) + hs(*self.modifier) } }
impl VHashS for CommutativeAssociation { open spec fn hash__s(&self) -> Seq<HTok> { hseq(self.items.s@) } }
impl VHashS for Expression { open spec fn hash__s(&self) -> Seq<HTok> { hs(*self) } }

// ---- lemmas
pub open spec fn eqseq(s: Seq<Expression>, t: Seq<Expression>) -> bool decreases s.len() { s.len() == t.len() && (s.len() == 0 || s.first() == t.first() && eqseq(s.drop_first(), t.drop_first())) }
pub broadcast proof fn b_eqseq(s: Seq<Expression>, t: Seq<Expression>) ensures #[trigger] eqseq(s, t) == (s == t) decreases s.len() {
    if s.len() == t.len() && s.len() > 0 { b_eqseq(s.drop_first(), t.drop_first()); assert(s =~= seq![s.first()] + s.drop_first()); assert(t =~= seq![t.first()] + t.drop_first()); } else if s.len() == t.len() { assert(s =~= t); }
}

// ---- the order is total and agrees with equality; the kinds' ranks are read off the code
pub open spec fn rev(a: Ordering) -> Ordering { match a { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, x => x } }
pub open spec fn le(a: Ordering) -> bool { !(a is Greater) }
pub proof fn order_str_eq(a: Seq<char>, b: Seq<char>) ensures (str_ord(a, b) is Equal) == (a == b) decreases a.len() {
    if a.len() == 0 && b.len() == 0 { assert(a =~= b); } else if a.len() > 0 && b.len() > 0 { order_str_eq(a.drop_first(), b.drop_first()); assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
}
pub proof fn order_str_flip(a: Seq<char>, b: Seq<char>) ensures str_ord(b, a) == rev(str_ord(a, b)) decreases a.len() { if a.len() > 0 && b.len() > 0 { order_str_flip(a.drop_first(), b.drop_first()); } }
pub proof fn order_str_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires le(str_ord(a, b)), le(str_ord(b, c)) ensures le(str_ord(a, c)) decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 { if a[0] == b[0] && b[0] == c[0] { order_str_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
}
/// different kinds have different ranks
pub proof fn order_ranks(a: Expression, b: Expression) ensures (a.id__s() == b.id__s()) == (a.disc__s() == b.disc__s()) {}
pub proof fn order_equal_iff_same(a: Expression, b: Expression) ensures (cmps(a, b) is Equal) == (a == b) decreases a {
    match (a, b) {
        (Expression::Variable(x), Expression::Variable(y)) => { order_str_eq(x.data.g@, y.data.g@); }
        (Expression::Power(x), Expression::Power(y)) => { order_equal_iff_same(*x.argument, *y.argument); order_equal_iff_same(*x.modifier, *y.modifier); }
        (Expression::Logarithm(x), Expression::Logarithm(y)) => { order_equal_iff_same(*x.argument, *y.argument); order_equal_iff_same(*x.modifier, *y.modifier); }
        (Expression::Sine(x), Expression::Sine(y)) => { order_equal_iff_same(*x.argument, *y.argument); }
        (Expression::Cossine(x), Expression::Cossine(y)) => { order_equal_iff_same(*x.argument, *y.argument); }
        (Expression::Multiplication(x), Expression::Multiplication(y)) => { if x.items.s@.len() == y.items.s@.len() { order_equal_seq(x.items.s@, y.items.s@); } }
        (Expression::Addition(x), Expression::Addition(y)) => { if x.items.s@.len() == y.items.s@.len() { order_equal_seq(x.items.s@, y.items.s@); } }
        _ => { order_ranks(a, b); }
    }
}
pub proof fn order_equal_seq(s: Seq<Expression>, t: Seq<Expression>) requires s.len() == t.len() ensures (cmpseq(s, t) is Equal) == (s == t) decreases s, s.len() {
    if s.len() > 0 { order_equal_iff_same(s.first(), t.first()); order_equal_seq(s.drop_first(), t.drop_first()); assert(s =~= seq![s.first()] + s.drop_first()); assert(t =~= seq![t.first()] + t.drop_first()); } else { assert(s =~= t); }
}
pub proof fn order_flip(a: Expression, b: Expression) ensures cmps(b, a) == rev(cmps(a, b)) decreases a {
    match (a, b) {
        (Expression::Variable(x), Expression::Variable(y)) => { order_str_flip(x.data.g@, y.data.g@); }
        (Expression::Power(x), Expression::Power(y)) => { order_flip(*x.argument, *y.argument); order_flip(*x.modifier, *y.modifier); }
        (Expression::Logarithm(x), Expression::Logarithm(y)) => { order_flip(*x.argument, *y.argument); order_flip(*x.modifier, *y.modifier); }
        (Expression::Sine(x), Expression::Sine(y)) => { order_flip(*x.argument, *y.argument); }
        (Expression::Cossine(x), Expression::Cossine(y)) => { order_flip(*x.argument, *y.argument); }
        (Expression::Multiplication(x), Expression::Multiplication(y)) => { if x.items.s@.len() == y.items.s@.len() { order_flip_seq(x.items.s@, y.items.s@); } }
        (Expression::Addition(x), Expression::Addition(y)) => { if x.items.s@.len() == y.items.s@.len() { order_flip_seq(x.items.s@, y.items.s@); } }
        _ => {}
    }
}
pub proof fn order_flip_seq(s: Seq<Expression>, t: Seq<Expression>) requires s.len() == t.len() ensures cmpseq(t, s) == rev(cmpseq(s, t)) decreases s, s.len() {
    if s.len() > 0 { order_flip(s.first(), t.first()); order_flip_seq(s.drop_first(), t.drop_first()); }
}
pub proof fn order_transitive(a: Expression, b: Expression, c: Expression) requires le(cmps(a, b)), le(cmps(b, c)) ensures le(cmps(a, c)) decreases a {
    order_ranks(a, b); order_ranks(b, c); order_ranks(a, c);
    match (a, b, c) {
        (Expression::Variable(x), Expression::Variable(y), Expression::Variable(z)) => { order_str_trans(x.data.g@, y.data.g@, z.data.g@); }
        (Expression::Power(x), Expression::Power(y), Expression::Power(z)) => { if le(cmps(*x.argument, *y.argument)) && le(cmps(*y.argument, *z.argument)) { order_transitive(*x.argument, *y.argument, *z.argument); } if le(cmps(*x.modifier, *y.modifier)) && le(cmps(*y.modifier, *z.modifier)) { order_transitive(*x.modifier, *y.modifier, *z.modifier); } order_trans_two(*x.argument, *y.argument, *z.argument, *x.modifier, *y.modifier, *z.modifier); }
        (Expression::Logarithm(x), Expression::Logarithm(y), Expression::Logarithm(z)) => { if le(cmps(*x.argument, *y.argument)) && le(cmps(*y.argument, *z.argument)) { order_transitive(*x.argument, *y.argument, *z.argument); } if le(cmps(*x.modifier, *y.modifier)) && le(cmps(*y.modifier, *z.modifier)) { order_transitive(*x.modifier, *y.modifier, *z.modifier); } order_trans_two(*x.argument, *y.argument, *z.argument, *x.modifier, *y.modifier, *z.modifier); }
        (Expression::Sine(x), Expression::Sine(y), Expression::Sine(z)) => { order_transitive(*x.argument, *y.argument, *z.argument); }
        (Expression::Cossine(x), Expression::Cossine(y), Expression::Cossine(z)) => { order_transitive(*x.argument, *y.argument, *z.argument); }
        (Expression::Multiplication(x), Expression::Multiplication(y), Expression::Multiplication(z)) => { if x.items.s@.len() == y.items.s@.len() && y.items.s@.len() == z.items.s@.len() { order_trans_seq(x.items.s@, y.items.s@, z.items.s@); } }
        (Expression::Addition(x), Expression::Addition(y), Expression::Addition(z)) => { if x.items.s@.len() == y.items.s@.len() && y.items.s@.len() == z.items.s@.len() { order_trans_seq(x.items.s@, y.items.s@, z.items.s@); } }
        _ => {}
    }
}
pub proof fn order_trans_two(a: Expression, b: Expression, c: Expression, d: Expression, e: Expression, f: Expression) requires le(cmps(a, b)) && le(cmps(b, c)) ==> le(cmps(a, c)), le(cmps(d, e)) && le(cmps(e, f)) ==> le(cmps(d, f)), le(lex(cmps(a, b), cmps(d, e))), le(lex(cmps(b, c), cmps(e, f))) ensures le(lex(cmps(a, c), cmps(d, f))) {
    order_equal_iff_same(a, b); order_equal_iff_same(b, c); order_equal_iff_same(a, c); order_flip(a, b);
}
pub proof fn order_trans_seq(s: Seq<Expression>, t: Seq<Expression>, u: Seq<Expression>) requires s.len() == t.len(), t.len() == u.len(), le(cmpseq(s, t)), le(cmpseq(t, u)) ensures le(cmpseq(s, u)) decreases s, s.len() {
    if s.len() > 0 {
        let (a, b, c) = (s.first(), t.first(), u.first());
        order_transitive(a, b, c); order_equal_iff_same(a, b); order_equal_iff_same(b, c); order_equal_iff_same(a, c); order_flip(a, b);
        if cmps(a, b) is Equal && cmps(b, c) is Equal { order_trans_seq(s.drop_first(), t.drop_first(), u.drop_first()); }
    }
}
/// equal expressions feed the same to a hasher
pub proof fn hash_equal(a: Expression, b: Expression) requires a.veq__s(&b) ensures a.hash__s() == b.hash__s() {}

// ---- listings and selectors
pub open spec fn in_order(s: Seq<Expression>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> le(cmps(#[trigger] s[i], #[trigger] s[j])) }
/// the sorted listing of std's heap is in the order of the items' own comparison (that this is a total order is proved above)
#[verifier::external_body] pub broadcast proof fn axiom_sorted_order(s: Seq<Expression>) ensures in_order(#[trigger] sorted__(s)) {}
pub open spec fn int_power(e: Expression) -> bool { e is Power && *e->Power_0.argument is Integer && *e->Power_0.modifier is Integer }
pub open spec fn rational(e: Expression) -> bool { e is Integer || int_power(e) || e is Multiplication && (forall|i: int| 0 <= i < e->Multiplication_0.items.s@.len() ==> (#[trigger] e->Multiplication_0.items.s@[i]) is Integer || int_power(e->Multiplication_0.items.s@[i])) }
pub broadcast proof fn b_filter_ext<A>(s: Seq<A>, p: spec_fn(A) -> bool, q: spec_fn(A) -> bool) requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i]) ensures #![trigger s.filter(p), s.filter(q)] s.filter(p) == s.filter(q) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } b_filter_ext(s.drop_last(), p, q); assert(p(s[s.len() - 1]) == q(s[s.len() - 1])); }
}
pub broadcast proof fn b_map_ext<A, B>(s: Seq<A>, f: spec_fn(A) -> B, g: spec_fn(A) -> B) requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(s[i]) ensures #![trigger s.map_values(f), s.map_values(g)] s.map_values(f) == s.map_values(g) { assert(s.map_values(f) =~= s.map_values(g)); }
pub broadcast proof fn b_count(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() ==> !(p(#[trigger] s[i]) && q(s[i]))
    ensures #![trigger s.filter(p), s.filter(q)] s.filter(p).len() + s.filter(q).len() <= s.len(), (s.filter(p).len() + s.filter(q).len() == s.len()) == (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) || q(s[i])) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(p(#[trigger] d[i]) && q(d[i])) by { assert(d[i] == s[i]); }
        b_count(d, p, q);
        let x = s[s.len() - 1];
        assert(!(p(x) && q(x)));
        if d.filter(p).len() + d.filter(q).len() == d.len() { assert forall|i: int| 0 <= i < s.len() && i < s.len() - 1 implies p(#[trigger] s[i]) || q(s[i]) by { assert(s[i] == d[i]); } }
        else { let i = choose|i: int| 0 <= i < d.len() && !(p(#[trigger] d[i]) || q(d[i])); assert(s[i] == d[i]); }
    }
}
pub open spec fn not_of<A>(p: spec_fn(A) -> bool) -> spec_fn(A) -> bool { |x: A| !p(x) }
/// a predicate and its negation share out the operands
pub proof fn order_partition<A>(s: Seq<A>, p: spec_fn(A) -> bool) ensures s.filter(p).len() + s.filter(not_of(p)).len() == s.len(), forall|x: A| s.contains(x) ==> s.filter(p).contains(x) != #[trigger] s.filter(not_of(p)).contains(x) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    let q = not_of(p);
    if s.len() > 0 {
        let d = s.drop_last(); let x = s.last();
        order_partition(d, p);
        assert(s =~= d.push(x));
        d.filter_lemma(p); d.filter_lemma(q); s.filter_lemma(p); s.filter_lemma(q);
        assert forall|y: A| s.contains(y) implies s.filter(p).contains(y) != #[trigger] s.filter(q).contains(y) by {
            if p(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(p(s[i])); if s.filter(q).contains(y) { let j = choose|j: int| 0 <= j < s.filter(q).len() && s.filter(q)[j] == y; assert(q(s.filter(q)[j])); } }
            else { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(q(s[i])); if s.filter(p).contains(y) { let j = choose|j: int| 0 <= j < s.filter(p).len() && s.filter(p)[j] == y; assert(p(s.filter(p)[j])); } }
        }
    }
}
/// a listing in order is determined by what it lists
pub proof fn order_unique(s: Seq<Expression>, t: Seq<Expression>) requires in_order(s), in_order(t), s.to_multiset() == t.to_multiset() ensures s == t decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let n = s.len() - 1; let (x, y) = (s[n], t[n]);
        assert(s.contains(x)); assert(t.contains(y)); assert(t.to_multiset().count(x) > 0); assert(s.to_multiset().count(y) > 0); assert(t.contains(x)); assert(s.contains(y));
        let (i, j) = (t.index_of(x), s.index_of(y)); assert(le(cmps(t[i], t[n]))); assert(le(cmps(s[j], s[n])));
        order_flip(x, y); order_equal_iff_same(x, y); assert(x == y);
        let (a, b) = (s.drop_last(), t.drop_last()); assert(a.push(x) =~= s); assert(b.push(y) =~= t); a.to_multiset_ensures(); b.to_multiset_ensures();
        assert(s.to_multiset() =~= a.to_multiset().insert(x)); assert(t.to_multiset() =~= b.to_multiset().insert(y)); assert(a.to_multiset() =~= s.to_multiset().remove(x)); assert(b.to_multiset() =~= t.to_multiset().remove(y));
        assert forall|i: int, j: int| 0 <= i <= j < a.len() implies le(cmps(#[trigger] a[i], #[trigger] a[j])) by { assert(a[i] == s[i]); assert(a[j] == s[j]); }
        assert forall|i: int, j: int| 0 <= i <= j < b.len() implies le(cmps(#[trigger] b[i], #[trigger] b[j])) by { assert(b[i] == t[i]); assert(b[j] == t[j]); }
        order_unique(a, b);
    } else { assert(s =~= t); }
}
pub proof fn vacuity_order(e: Expression) ensures false { broadcast use {b_eqseq, axiom_sorted, axiom_sorted_order, axiom_anyorder, b_filter_ext, b_map_ext, b_count}; order_equal_iff_same(e, e); order_flip(e, e); order_transitive(e, e, e); }
