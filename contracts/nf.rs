// ===================== what sums and products come to, as expressions =====================
/// The parts of a sum (a product) once the sums (products) inside it are opened up: what is not a number, and the numbers together.
use vstd::multiset::Multiset;
pub enum Op { Sum, Prod }
pub type MS = Multiset<Expression>;
pub open spec fn madd(a: MS, b: MS) -> MS { a.add(b) }
pub mod joined { use super::*;
/// numbers together
pub closed spec fn ij(o: Op, a: int, b: int) -> int { match o { Op::Sum => a + b, Op::Prod => a * b } }
pub broadcast proof fn b_ij_comm(o: Op, a: int, b: int) ensures #[trigger] ij(o, a, b) == ij(o, b, a) { assert(a * b == b * a) by(nonlinear_arith); }
pub broadcast proof fn b_ij_assoc(o: Op, a: int, b: int, c: int) ensures #![trigger ij(o, a, ij(o, b, c))] ij(o, ij(o, a, b), c) == ij(o, a, ij(o, b, c)) { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); }
pub broadcast proof fn b_ij_swap(o: Op, a: int, b: int, c: int) ensures #![trigger ij(o, ij(o, a, b), c)] ij(o, ij(o, a, b), c) == ij(o, ij(o, a, c), b) { assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
pub broadcast proof fn b_ij_unit(o: Op, a: int, b: int) ensures #![trigger ij(o, a, b)] a == un(o) ==> ij(o, a, b) == b, b == un(o) ==> ij(o, a, b) == a, o is Prod && (a == 0 || b == 0) ==> ij(o, a, b) == 0, o is Prod && a == -1 ==> ij(o, a, b) == -b, o is Prod && b == -1 ==> ij(o, a, b) == -a, o is Prod && a != 0 && b != 0 ==> ij(o, a, b) != 0 { assert(a != 0 && b != 0 ==> a * b != 0) by(nonlinear_arith); assert(-1 * b == -b && a * -1 == -a) by(nonlinear_arith); assert(1 * b == b && a * 1 == a && 0 * b == 0 && a * 0 == 0) by(nonlinear_arith); }
pub broadcast proof fn b_ij_sum(a: int, b: int) ensures #![trigger ij(Op::Sum, a, b)] ij(Op::Sum, a, b) == a + b {}
/// products of integers by their sign and size
pub broadcast proof fn b_ij_real(a: int, b: int) ensures #![trigger ij(Op::Prod, a, b)] ir(ij(Op::Prod, a, b)) == rm(ir(a), ir(b)) { lem_rm_real(ir(a), ir(b)); assert((a as real) * (b as real) == (a * b) as real) by(nonlinear_arith); }
pub broadcast proof fn b_ij_prod(a: int, b: int) ensures #![trigger big(a * b)] ij(Op::Prod, a, b) == a * b {}
}
pub use joined::*;
pub open spec fn im(a: int, b: int) -> int { ij(Op::Prod, a, b) }
pub open spec fn un(o: Op) -> int { match o { Op::Sum => 0, Op::Prod => 1 } }
pub open spec fn isop(o: Op, e: Expression) -> bool { match o { Op::Sum => e is Addition, Op::Prod => e is Multiplication } }
/// neither a number nor to be opened up
pub open spec fn atom(o: Op, e: Expression) -> bool { !isop(o, e) && !(e is Integer) && !(e is Real) }
pub open spec fn fm(o: Op, e: Expression) -> MS decreases e, 1int {
    match e {
        Expression::Addition(a) => if o is Sum { fms(o, a.items.s@) } else { Multiset::singleton(e) },
        Expression::Multiplication(a) => if o is Prod { fms(o, a.items.s@) } else { Multiset::singleton(e) },
        Expression::Integer(_) => Multiset::empty(),
        Expression::Real(_) => Multiset::empty(),
        _ => Multiset::singleton(e),
    }
}
pub open spec fn fms(o: Op, s: Seq<Expression>) -> MS decreases s, s.len() { if s.len() == 0 { Multiset::empty() } else { madd(fms(o, s.drop_last()), fm(o, s.last())) } }
pub open spec fn fi(o: Op, e: Expression) -> int decreases e, 1int {
    match e {
        Expression::Addition(a) => if o is Sum { fis(o, a.items.s@) } else { un(o) },
        Expression::Multiplication(a) => if o is Prod { fis(o, a.items.s@) } else { un(o) },
        Expression::Integer(n) => n.data.g@,
        Expression::Real(x) => if o is Prod && x.data.g@ < 0real { -1 } else { un(o) },
        _ => un(o),
    }
}
pub open spec fn fis(o: Op, s: Seq<Expression>) -> int decreases s, s.len() { if s.len() == 0 { un(o) } else { ij(o, fis(o, s.drop_last()), fi(o, s.last())) } }
/// no real constant among the parts
pub open spec fn fr(o: Op, e: Expression) -> bool decreases e, 1int {
    match e {
        Expression::Addition(a) => if o is Sum { frs(o, a.items.s@) } else { true },
        Expression::Multiplication(a) => if o is Prod { frs(o, a.items.s@) } else { true },
        Expression::Real(_) => false,
        _ => true,
    }
}
pub open spec fn frs(o: Op, s: Seq<Expression>) -> bool decreases s, s.len() { if s.len() == 0 { true } else { frs(o, s.drop_last()) && fr(o, s.last()) } }

pub broadcast proof fn b_madd_unit(a: MS, b: MS) ensures #![trigger madd(a, b)] a == Multiset::<Expression>::empty() ==> madd(a, b) == b, b == Multiset::<Expression>::empty() ==> madd(a, b) == a { assert(a == Multiset::<Expression>::empty() ==> madd(a, b) =~= b); assert(b == Multiset::<Expression>::empty() ==> madd(a, b) =~= a); }
pub broadcast proof fn b_nf_push(o: Op, s: Seq<Expression>, x: Expression) ensures #![trigger fms(o, s.push(x))] #![trigger fis(o, s.push(x))] #![trigger frs(o, s.push(x))]
    fms(o, s.push(x)) == madd(fms(o, s), fm(o, x)), fis(o, s.push(x)) == ij(o, fis(o, s), fi(o, x)), frs(o, s.push(x)) == (frs(o, s) && fr(o, x)) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_nf_last(o: Op, s: Seq<Expression>) requires s.len() > 0 ensures #![trigger fms(o, s.drop_last())] #![trigger fis(o, s.drop_last())] #![trigger frs(o, s.drop_last())]
    fms(o, s) == madd(fms(o, s.drop_last()), fm(o, s.last())), fis(o, s) == ij(o, fis(o, s.drop_last()), fi(o, s.last())), frs(o, s) == (frs(o, s.drop_last()) && fr(o, s.last())) {}
pub broadcast proof fn b_nf_none(o: Op, s: Seq<Expression>) requires s.len() == 0 ensures #![trigger fms(o, s)] #![trigger fis(o, s)] #![trigger frs(o, s)] fms(o, s) == Multiset::<Expression>::empty(), fis(o, s) == un(o), frs(o, s) {}
pub broadcast proof fn b_nf_cat(o: Op, s: Seq<Expression>, t: Seq<Expression>) ensures #![trigger fms(o, s + t)] #![trigger fis(o, s + t)] #![trigger frs(o, s + t)]
    fms(o, s + t) =~= madd(fms(o, s), fms(o, t)), fis(o, s + t) == ij(o, fis(o, s), fis(o, t)), frs(o, s + t) == (frs(o, s) && frs(o, t)) decreases t.len()
{
    broadcast use b_ij_unit; if t.len() == 0 { assert(s + t =~= s); } else { let d = t.drop_last(); assert((s + t).drop_last() =~= s + d); b_nf_cat(o, s, d); b_ij_assoc(o, fis(o, s), fis(o, d), fi(o, t.last())); }
}
pub proof fn lem_nf_remove(o: Op, s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures fms(o, s) =~= madd(fms(o, s.remove(i)), fm(o, s[i])), fis(o, s) == ij(o, fis(o, s.remove(i)), fi(o, s[i])), frs(o, s) == (frs(o, s.remove(i)) && fr(o, s[i])) {
    assert(s =~= s.take(i).push(s[i]) + s.skip(i + 1)); assert(s.remove(i) =~= s.take(i) + s.skip(i + 1));
    b_nf_cat(o, s.take(i).push(s[i]), s.skip(i + 1)); b_nf_cat(o, s.take(i), s.skip(i + 1)); b_nf_push(o, s.take(i), s[i]);
    b_ij_swap(o, fis(o, s.take(i)), fi(o, s[i]), fis(o, s.skip(i + 1)));
}
/// order does not matter
pub proof fn lem_nf_perm(o: Op, s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures fms(o, s) == fms(o, t), fis(o, s) == fis(o, t), frs(o, s) == frs(o, t) decreases s.len() {
    s.to_multiset_ensures(); t.to_multiset_ensures();
    if s.len() > 0 {
        let x = s.last(); assert(s.contains(x)) by { assert(s[s.len() - 1] == x); } assert(t.to_multiset().count(x) > 0); assert(t.contains(x));
        let i = t.index_of(x); lem_nf_remove(o, t, i); assert(s.remove(s.len() - 1) =~= s.drop_last());
        assert(s.drop_last().to_multiset() =~= s.to_multiset().remove(x)); assert(t.remove(i).to_multiset() =~= t.to_multiset().remove(x));
        lem_nf_perm(o, s.drop_last(), t.remove(i));
    } else { assert(t.len() == 0); }
}
pub broadcast proof fn b_nf_sorted(o: Op, s: Seq<Expression>) ensures #![trigger fms(o, sorted__(s))] #![trigger fis(o, sorted__(s))] #![trigger frs(o, sorted__(s))] fms(o, sorted__(s)) == fms(o, s), fis(o, sorted__(s)) == fis(o, s), frs(o, sorted__(s)) == frs(o, s) { axiom_sorted(s); lem_nf_perm(o, sorted__(s), s); }
pub broadcast proof fn b_nf_any(o: Op, s: Seq<Expression>) ensures #![trigger fms(o, anyorder__(s))] #![trigger fis(o, anyorder__(s))] #![trigger frs(o, anyorder__(s))] fms(o, anyorder__(s)) == fms(o, s), fis(o, anyorder__(s)) == fis(o, s), frs(o, anyorder__(s)) == frs(o, s) { axiom_anyorder(s); lem_nf_perm(o, anyorder__(s), s); }
/// leaving out what counts for nothing
pub open spec fn nil(o: Op, e: Expression) -> bool { fm(o, e) =~= Multiset::empty() && fi(o, e) == un(o) && !isop(o, e) }
pub broadcast proof fn b_nf_filter(o: Op, s: Seq<Expression>, p: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) ==> nil(o, s[i]) ensures #![trigger fms(o, s.filter(p))] #![trigger fis(o, s.filter(p))] #![trigger frs(o, s.filter(p))]
    fms(o, s.filter(p)) == fms(o, s), fis(o, s.filter(p)) == fis(o, s), frs(o, s) ==> frs(o, s.filter(p)) decreases s.len()
{
    reveal_with_fuel(Seq::filter, 1); broadcast use b_ij_unit;
    if s.len() > 0 {
        let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && !p(#[trigger] d[i]) implies nil(o, d[i]) by { assert(d[i] == s[i]); } b_nf_filter(o, d, p); assert(s[s.len() - 1] == s.last());
        if p(s.last()) { b_nf_push(o, d.filter(p), s.last()); } else { assert(nil(o, s.last())); assert(fms(o, s) =~= fms(o, d)); }
    } else { assert(s.filter(p) =~= s); }
}
pub broadcast proof fn b_nf_node(o: Op, a: CommutativeAssociation) ensures
    #![trigger fm(o, Expression::Addition(a))] #![trigger fi(o, Expression::Addition(a))] #![trigger fr(o, Expression::Addition(a))] #![trigger fm(o, Expression::Multiplication(a))] #![trigger fi(o, Expression::Multiplication(a))] #![trigger fr(o, Expression::Multiplication(a))]
    o is Sum ==> ({ let e = Expression::Addition(a); fm(o, e) == fms(o, a.items.s@) && fi(o, e) == fis(o, a.items.s@) && fr(o, e) == frs(o, a.items.s@) }),
    o is Prod ==> ({ let e = Expression::Multiplication(a); fm(o, e) == fms(o, a.items.s@) && fi(o, e) == fis(o, a.items.s@) && fr(o, e) == frs(o, a.items.s@) }) {}
/// a list of parts: it is what it holds
#[verifier::opaque] pub open spec fn atoms(o: Op, s: Seq<Expression>) -> bool { forall|i: int| 0 <= i < s.len() ==> atom(o, #[trigger] s[i]) }
pub broadcast proof fn b_atoms_push(o: Op, s: Seq<Expression>, x: Expression) ensures #![trigger atoms(o, s.push(x))] atoms(o, s.push(x)) == (atoms(o, s) && atom(o, x)) { reveal(atoms); let t = s.push(x);
    if atoms(o, t) { assert forall|i: int| 0 <= i < s.len() implies atom(o, #[trigger] s[i]) by { assert(t[i] == s[i]); } assert(t[s.len() as int] == x); } }
pub broadcast proof fn b_atoms_none(o: Op, s: Seq<Expression>) requires s.len() == 0 ensures #![trigger atoms(o, s)] atoms(o, s) { reveal(atoms); }
pub proof fn lem_atoms(o: Op, s: Seq<Expression>) requires atoms(o, s) ensures fms(o, s) =~= s.to_multiset(), fis(o, s) == un(o), frs(o, s) decreases s.len() {
    broadcast use b_ij_unit; s.to_multiset_ensures(); if s.len() == 0 { assert(s =~= Seq::empty()); assert(s.to_multiset() =~= Multiset::empty()); }
    if s.len() > 0 { let d = s.drop_last(); assert(d.push(s.last()) =~= s); b_atoms_push(o, d, s.last()); lem_atoms(o, d); d.to_multiset_ensures(); let x = s.last(); assert(fm(o, x) == Multiset::singleton(x) && fi(o, x) == un(o) && fr(o, x)); assert(Multiset::singleton(x) =~= Multiset::<Expression>::empty().insert(x)); assert(d.push(s.last()).to_multiset() =~= d.to_multiset().insert(s.last())); }
}
pub broadcast proof fn b_atoms(o: Op, s: Seq<Expression>) ensures #![trigger atoms(o, s)] atoms(o, s) ==> fms(o, s) == s.to_multiset() && fis(o, s) == un(o) && frs(o, s) { if atoms(o, s) { lem_atoms(o, s); } }
pub broadcast proof fn b_msetpush(s: Seq<Expression>, x: Expression) ensures #![trigger s.push(x).to_multiset()] s.push(x).to_multiset() == s.to_multiset().insert(x) { s.to_multiset_ensures(); assert(s.push(x).to_multiset() =~= s.to_multiset().insert(x)); }
pub broadcast proof fn b_msetlen(s: Seq<Expression>) ensures #![trigger s.to_multiset()] s.to_multiset().len() == s.len() { s.to_multiset_ensures(); }
// ---- the expression made of parts
/// a listing depends on what is listed only (proved of the crate's order in family O: lemma order_unique)
#[verifier::external_body] pub proof fn axiom_sorted_unique(s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset() ensures sorted__(s) == sorted__(t) {}
pub open spec fn some_list(m: MS) -> Seq<Expression> { choose|s: Seq<Expression>| s.to_multiset() == m }
pub open spec fn listing(m: MS) -> Seq<Expression> { sorted__(some_list(m)) }
pub broadcast proof fn b_listing(s: Seq<Expression>) ensures #![trigger sorted__(s)] sorted__(s) == listing(s.to_multiset()) { let t = some_list(s.to_multiset()); assert(t.to_multiset() == s.to_multiset()); axiom_sorted_unique(s, t); }
pub open spec fn lit(n: int) -> Expression { Expression::Integer(Symbol { data: big(n) }) }
#[verifier::opaque] pub open spec fn mk(o: Op, m: MS, n: int) -> Expression {
    if o is Prod && n == 0 { lit(0) } else {
        let l = if n == un(o) { m } else { m.insert(lit(n)) };
        if l.len() == 0 { lit(un(o)) } else if l.len() == 1 { l.choose() } else { let a = CommutativeAssociation { items: BinaryHeap { s: Ghost(listing(l)) } }; match o { Op::Sum => Expression::Addition(a), Op::Prod => Expression::Multiplication(a) } }
    }
}
/// the sum (product) of a list without real constants
/// integers of the same sign and size are the same
pub broadcast proof fn b_fis_eq(a: Seq<Expression>, b: Seq<Expression>) ensures #![trigger fis(Op::Prod, a), fis(Op::Prod, b)] ({ let (x, y) = (ir(fis(Op::Prod, a)), ir(fis(Op::Prod, b))); (x == 0real && y == 0real) || (x != 0real && y != 0real && lg(x) == lg(y) && (x < 0real) == (y < 0real)) ==> fis(Op::Prod, a) == fis(Op::Prod, b) }) { let (x, y) = (ir(fis(Op::Prod, a)), ir(fis(Op::Prod, b))); if x != 0real && y != 0real && lg(x) == lg(y) && (x < 0real) == (y < 0real) { lem_lg_inj(x, y); } }
pub open spec fn nfr(o: Op, s: Seq<Expression>) -> Expression { mk(o, fms(o, s), fis(o, s)) }
pub open spec fn node(o: Op, s: Seq<Expression>) -> Expression { let a = CommutativeAssociation { items: BinaryHeap { s: Ghost(s) } }; match o { Op::Sum => Expression::Addition(a), Op::Prod => Expression::Multiplication(a) } }
/// parts, and at most one number after them, which counts
#[verifier::opaque] pub open spec fn tidy(o: Op, s: Seq<Expression>) -> bool { atoms(o, s) || (s.len() > 0 && atoms(o, s.drop_last()) && s.last() is Integer && ({ let n = s.last()->Integer_0.data.g@; n != un(o) && (o is Prod ==> n != 0) })) }
pub broadcast proof fn b_tidy_push(o: Op, s: Seq<Expression>, x: Expression) ensures #![trigger atoms(o, s), s.push(x)] atoms(o, s) && x is Integer && x->Integer_0.data.g@ != un(o) && (o is Prod ==> x->Integer_0.data.g@ != 0) ==> tidy(o, s.push(x)) { reveal(tidy); assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_tidy_atoms(o: Op, s: Seq<Expression>) ensures #![trigger atoms(o, s)] atoms(o, s) ==> tidy(o, s) { reveal(tidy); }
pub broadcast proof fn b_mk_empty(o: Op, m: MS, n: int) ensures #![trigger mk(o, m, n)] m.len() == 0 && m == Multiset::<Expression>::empty() ==> mk(o, m, n) == lit(n), o is Prod && n == 0 ==> mk(o, m, n) == lit(0) { reveal(mk); let l = m.insert(lit(n)); if m == Multiset::<Expression>::empty() { assert(l.len() == 1); let x = l.choose(); assert(l.count(x) > 0); assert(x == lit(n)); } }
pub proof fn lem_made(o: Op, s: Seq<Expression>) requires tidy(o, s) ensures s.len() == 0 ==> lit(un(o)) == mk(o, fms(o, s), fis(o, s)), s.len() == 1 ==> s[0] == mk(o, fms(o, s), fis(o, s)), s.len() > 1 ==> node(o, sorted__(s)) == mk(o, fms(o, s), fis(o, s)) {
    reveal(mk); reveal(tidy); broadcast use {b_ij_unit, b_madd_unit}; s.to_multiset_ensures(); let m = fms(o, s); let n = fis(o, s);
    if atoms(o, s) { lem_atoms(o, s); assert(n == un(o)); assert(m == s.to_multiset()); }
    else { let d = s.drop_last(); lem_atoms(o, d); d.to_multiset_ensures(); assert(d.push(s.last()) =~= s); assert(fm(o, s.last()) =~= Multiset::empty()); assert(m == d.to_multiset()); assert(fis(o, d) == un(o)); assert(fi(o, s.last()) == s.last()->Integer_0.data.g@); assert(n == ij(o, fis(o, d), fi(o, s.last()))); b_ij_unit(o, fis(o, d), fi(o, s.last())); assert(n == s.last()->Integer_0.data.g@); assert(s.last()->Integer_0.data =~= big(n)); assert(lit(n) == s.last()); assert(s.to_multiset() =~= m.insert(lit(n))); }
    if s.len() == 1 { b_mk_one(s); } if s.len() == 0 { assert(s =~= Seq::empty()); assert(s.to_multiset().len() == 0); }
    b_listing(s);
}
pub broadcast proof fn b_made(o: Op, s: Seq<Expression>) ensures #![trigger tidy(o, s)] tidy(o, s) ==> (s.len() == 0 ==> lit(un(o)) == mk(o, fms(o, s), fis(o, s))) && (s.len() == 1 ==> s.last() == mk(o, fms(o, s), fis(o, s))) && (s.len() > 1 ==> node(o, sorted__(s)) == mk(o, fms(o, s), fis(o, s))) { if tidy(o, s) { lem_made(o, s); } }
pub broadcast proof fn b_mk_one(s: Seq<Expression>) requires s.len() == 1 ensures #![trigger s.to_multiset()] s.to_multiset().choose() == s[0] { s.to_multiset_ensures(); let x = s.to_multiset().choose(); assert(s.to_multiset().len() == 1); assert(s.to_multiset().count(s[0]) > 0) by { assert(s.contains(s[0])); } assert(s.to_multiset().count(x) > 0); assert(s.contains(x)); }
pub broadcast group g_nf { b_madd_unit, b_ij_unit, b_ij_sum, b_ij_prod, b_nf_push, b_nf_last, b_nf_none, b_nf_cat, b_nf_sorted, b_nf_any, b_nf_filter, b_nf_node, b_atoms_push, b_atoms_none, b_atoms, b_tidy_push, b_tidy_atoms, b_mk_empty, b_made }
pub broadcast group g_nfp { b_ij_real, b_fis_eq, b_lg, b_lg_unit }
pub broadcast group g_ij { b_ij_comm, b_ij_assoc, b_ij_swap }
// ---- order and grouping
/// all parts are atoms
pub proof fn lem_fm_atoms(o: Op, e: Expression, x: Expression) requires fm(o, e).count(x) > 0 ensures atom(o, x) decreases e, 1int {
    match e { Expression::Addition(a) => { if o is Sum { lem_fms_atoms(o, a.items.s@, x); } } Expression::Multiplication(a) => { if o is Prod { lem_fms_atoms(o, a.items.s@, x); } } _ => {} }
}
pub proof fn lem_fms_atoms(o: Op, s: Seq<Expression>, x: Expression) requires fms(o, s).count(x) > 0 ensures atom(o, x) decreases s, s.len() {
    if s.len() > 0 { if fms(o, s.drop_last()).count(x) > 0 { lem_fms_atoms(o, s.drop_last(), x); } else { lem_fm_atoms(o, s.last(), x); } }
}
pub open spec fn all_atoms(o: Op, m: MS) -> bool { forall|x: Expression| #[trigger] m.count(x) > 0 ==> atom(o, x) }
/// every multiset is that of a list
pub proof fn lem_some_list(m: MS) ensures some_list(m).to_multiset() == m decreases m.len() { let s = make_list(m); lem_make_list(m); }
pub open spec fn make_list(m: MS) -> Seq<Expression> decreases m.len() { if m.len() == 0 { Seq::empty() } else { let x = m.choose(); if m.remove(x).len() < m.len() { make_list(m.remove(x)).push(x) } else { Seq::empty() } } }
pub proof fn lem_make_list(m: MS) ensures make_list(m).to_multiset() == m decreases m.len() {
    if m.len() == 0 { Seq::<Expression>::empty().to_multiset_ensures(); assert(make_list(m).to_multiset() =~= m); }
    else { let x = m.choose(); assert(m.count(x) > 0); assert(m.remove(x).len() < m.len()); lem_make_list(m.remove(x)); make_list(m.remove(x)).to_multiset_ensures(); assert(m.remove(x).insert(x) =~= m); assert(make_list(m).to_multiset() =~= m); }
}
/// what is in a list of parts, whatever its order
pub proof fn lem_parts(o: Op, s: Seq<Expression>, m: MS) requires s.to_multiset() == m, all_atoms(o, m) ensures fms(o, s) == m, fis(o, s) == un(o), frs(o, s) {
    s.to_multiset_ensures(); reveal(atoms); assert forall|i: int| 0 <= i < s.len() implies atom(o, #[trigger] s[i]) by { assert(s.contains(s[i])); assert(m.count(s[i]) > 0); } lem_atoms(o, s);
}
/// opened up again, what is made of parts has these parts
pub proof fn lem_mk(o: Op, m: MS, n: int) requires all_atoms(o, m) ensures fr(o, mk(o, m, n)), fi(o, mk(o, m, n)) == n, o is Prod && n == 0 || fm(o, mk(o, m, n)) == m, o is Prod && n == 0 ==> fm(o, mk(o, m, n)) == Multiset::<Expression>::empty() {
    reveal(mk); broadcast use {b_ij_unit, b_madd_unit};
    if o is Prod && n == 0 {} else {
        let l = if n == un(o) { m } else { m.insert(lit(n)) }; let e = mk(o, m, n);
        if l.len() == 0 { assert(n == un(o)); assert(m =~= Multiset::empty()); }
        else if l.len() == 1 {
            let x = l.choose(); assert(l.count(x) > 0); assert(e == x);
            if n == un(o) { assert(atom(o, x)); assert(l =~= Multiset::singleton(x)) by { assert forall|y: Expression| y != x implies l.count(y) == 0 by { if l.count(y) > 0 { let k = l.remove(x); assert(k.len() == 0); assert(k.count(y) == l.count(y)); assert(k =~= Multiset::empty()); } } let k = l.remove(x); assert(k.len() == 0); assert(k =~= Multiset::empty()); assert(l.count(x) == 1) by { assert(k.count(x) == 0); } } assert(fm(o, x) =~= Multiset::singleton(x)); }
            else { assert(m.len() == 0); assert(m =~= Multiset::empty()); assert(x == lit(n)); }
        } else {
            let t = listing(l); lem_some_list(l); axiom_sorted(some_list(l)); assert(t.to_multiset() == l);
            if n == un(o) { lem_parts(o, t, l); }
            else {
                let c = lit(n); t.to_multiset_ensures(); assert(l.count(c) > 0); assert(t.contains(c)); let i = t.index_of(c); lem_nf_remove(o, t, i); let d = t.remove(i);
                assert(d.to_multiset() =~= t.to_multiset().remove(c)); assert(l.remove(c) =~= m); lem_parts(o, d, m); assert(fm(o, c) =~= Multiset::empty()); assert(fi(o, c) == n); b_ij_unit(o, fis(o, d), fi(o, c));
            }
            let a = CommutativeAssociation { items: BinaryHeap { s: Ghost(t) } }; b_nf_node(o, a); assert(e == node(o, t));
        }
    }
}
/// the order of the operands does not matter
pub proof fn any_order(o: Op, s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset(), frs(o, s) ensures frs(o, t), nfr(o, s) == nfr(o, t) { lem_nf_perm(o, s, t); }
/// nor does their grouping: operands may be put together first
pub proof fn any_grouping(o: Op, a: Seq<Expression>, w: Seq<Expression>, b: Seq<Expression>) requires frs(o, a), frs(o, w), frs(o, b) ensures fr(o, nfr(o, w)), frs(o, a.push(nfr(o, w)) + b), frs(o, a + w + b), nfr(o, a.push(nfr(o, w)) + b) == nfr(o, a + w + b) {
    broadcast use {b_ij_unit}; let (m, n) = (fms(o, w), fis(o, w)); assert(all_atoms(o, m)) by { assert forall|x: Expression| #[trigger] m.count(x) > 0 implies atom(o, x) by { lem_fms_atoms(o, w, x); } } let e = nfr(o, w); lem_mk(o, m, n);
    b_nf_push(o, a, e); b_nf_cat(o, a.push(e), b); b_nf_cat(o, a, w); b_nf_cat(o, a + w, b);
    if o is Prod && n == 0 { let x = fis(o, a + w + b); assert(x == 0); assert(fis(o, a.push(e) + b) == 0); b_mk_empty(o, fms(o, a + w + b), 0); b_mk_empty(o, fms(o, a.push(e) + b), 0); }
}
/// the same, of variables of the types loops work with
pub trait NfV: Sized { spec fn sm(self) -> MS; spec fn si(self) -> int; spec fn s0(self) -> bool; spec fn sa(self) -> bool; spec fn pm(self) -> MS; spec fn pi(self) -> int; spec fn p1(self) -> bool; spec fn pa(self) -> bool; spec fn nz(self) -> bool; spec fn pr(self) -> real; }
impl NfV for Vec<Expression> { open spec fn sm(self) -> MS { fms(Op::Sum, self.g@) } open spec fn si(self) -> int { fis(Op::Sum, self.g@) } open spec fn s0(self) -> bool { frs(Op::Sum, self.g@) } open spec fn sa(self) -> bool { atoms(Op::Sum, self.g@) } open spec fn pm(self) -> MS { fms(Op::Prod, self.g@) } open spec fn pi(self) -> int { fis(Op::Prod, self.g@) } open spec fn p1(self) -> bool { frs(Op::Prod, self.g@) } open spec fn pa(self) -> bool { atoms(Op::Prod, self.g@) } open spec fn nz(self) -> bool { true } open spec fn pr(self) -> real { ir(fis(Op::Prod, self.g@)) } }
impl NfV for It<Expression> { open spec fn sm(self) -> MS { fms(Op::Sum, self.g@) } open spec fn si(self) -> int { fis(Op::Sum, self.g@) } open spec fn s0(self) -> bool { frs(Op::Sum, self.g@) } open spec fn sa(self) -> bool { true } open spec fn pm(self) -> MS { fms(Op::Prod, self.g@) } open spec fn pi(self) -> int { fis(Op::Prod, self.g@) } open spec fn p1(self) -> bool { frs(Op::Prod, self.g@) } open spec fn pa(self) -> bool { true } open spec fn nz(self) -> bool { true } open spec fn pr(self) -> real { ir(fis(Op::Prod, self.g@)) } }
impl NfV for ItO<Expression> { open spec fn sm(self) -> MS { fms(Op::Sum, self.g@) } open spec fn si(self) -> int { fis(Op::Sum, self.g@) } open spec fn s0(self) -> bool { frs(Op::Sum, self.g@) } open spec fn sa(self) -> bool { true } open spec fn pm(self) -> MS { fms(Op::Prod, self.g@) } open spec fn pi(self) -> int { fis(Op::Prod, self.g@) } open spec fn p1(self) -> bool { frs(Op::Prod, self.g@) } open spec fn pa(self) -> bool { true } open spec fn nz(self) -> bool { true } open spec fn pr(self) -> real { ir(fis(Op::Prod, self.g@)) } }
impl NfV for Expression { open spec fn sm(self) -> MS { fm(Op::Sum, self) } open spec fn si(self) -> int { fi(Op::Sum, self) } open spec fn s0(self) -> bool { fr(Op::Sum, self) } open spec fn sa(self) -> bool { true } open spec fn pm(self) -> MS { fm(Op::Prod, self) } open spec fn pi(self) -> int { fi(Op::Prod, self) } open spec fn p1(self) -> bool { fr(Op::Prod, self) } open spec fn pa(self) -> bool { true } open spec fn nz(self) -> bool { true } open spec fn pr(self) -> real { ir(fi(Op::Prod, self)) } }
impl NfV for Symbol<BigInt> { open spec fn sm(self) -> MS { Multiset::empty() } open spec fn si(self) -> int { self.data.g@ } open spec fn s0(self) -> bool { true } open spec fn sa(self) -> bool { true } open spec fn pm(self) -> MS { Multiset::empty() } open spec fn pi(self) -> int { self.data.g@ } open spec fn p1(self) -> bool { true } open spec fn pa(self) -> bool { true } open spec fn nz(self) -> bool { self.data.g@ != 0 } open spec fn pr(self) -> real { ir(self.data.g@) } }
impl NfV for Symbol<F64> { open spec fn sm(self) -> MS { Multiset::empty() } open spec fn si(self) -> int { 0 } open spec fn s0(self) -> bool { self.data.g@ == 0real } open spec fn sa(self) -> bool { true } open spec fn pm(self) -> MS { Multiset::empty() } open spec fn pi(self) -> int { 1 } open spec fn p1(self) -> bool { self.data.g@ == 1real } open spec fn pa(self) -> bool { true } open spec fn nz(self) -> bool { true } open spec fn pr(self) -> real { ir(1) } }
pub proof fn vacuity_nf() ensures false { broadcast use {g_nf, g_ij}; axiom_sorted_unique(Seq::empty(), Seq::empty()); }
