// ===================== what holds of every item of a list =====================
/// Dom: defined. Shp: as construction leaves it. Spos: positive throughout. Sz: positive throughout, or nothing at all.
pub enum Pr { Dom, Shp, Spos, Sz, Int, NoLit, NoZero, Lit }
pub open spec fn szp(e: Expression) -> bool { spos(e) || zero_lit(e) }
pub open spec fn holds(p: Pr, e: Expression) -> bool {
    match p { Pr::Dom => dom(e), Pr::Shp => shp(e), Pr::Spos => spos(e), Pr::Sz => szp(e), Pr::Int => e is Integer, Pr::NoLit => !(e is Integer) && !(e is Real), Pr::NoZero => !zero_lit(e), Pr::Lit => e is Integer || e is Real }
}
pub open spec fn all_good(s: Seq<Expression>) -> bool { allp(Pr::Dom, s) && allp(Pr::Shp, s) }
pub open spec fn all_shz(s: Seq<Expression>) -> bool { allp(Pr::Shp, s) && allp(Pr::NoZero, s) }

pub proof fn lem_dom_all(s: Seq<Expression>) ensures all_dom(s) == allp(Pr::Dom, s) { reveal(all_dom); reveal(allp); assert(allp(Pr::Dom, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Dom, #[trigger] s[i])); assert(all_dom(s) ==> forall|i: int| 0 <= i < s.len() ==> dom(#[trigger] s[i])); }
pub proof fn lem_shp_all(s: Seq<Expression>) ensures all_shp(s) == allp(Pr::Shp, s) { reveal(all_shp); reveal(allp); assert(allp(Pr::Shp, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Shp, #[trigger] s[i])); assert(all_shp(s) ==> forall|i: int| 0 <= i < s.len() ==> shp(#[trigger] s[i])); }
pub proof fn lem_spos_all(s: Seq<Expression>) ensures all_spos(s) == allp(Pr::Spos, s) { reveal(all_spos); reveal(allp); assert(allp(Pr::Spos, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::Spos, #[trigger] s[i])); assert(all_spos(s) ==> forall|i: int| 0 <= i < s.len() ==> spos(#[trigger] s[i])); }
pub broadcast proof fn b_dom_node(e: Expression) ensures #![trigger dom(e)] e is Multiplication ==> dom(e) == allp(Pr::Dom, e->Multiplication_0.items.s@), e is Addition ==> dom(e) == allp(Pr::Dom, e->Addition_0.items.s@) { reveal(all_dom); if e is Multiplication { lem_dom_all(e->Multiplication_0.items.s@); } if e is Addition { lem_dom_all(e->Addition_0.items.s@); } }
pub broadcast proof fn b_shp_node(e: Expression) ensures #![trigger shp(e)] e is Multiplication ==> ({ let s = e->Multiplication_0.items.s@; shp(e) == (allp(Pr::Shp, s) && allp(Pr::NoZero, s) && nint(s) <= 1 && nreal(s) <= 1) }), e is Addition ==> shp(e) == allp(Pr::Shp, e->Addition_0.items.s@) { reveal(all_shp); if e is Multiplication { lem_shp_all(e->Multiplication_0.items.s@); b_zero_all(e->Multiplication_0.items.s@); } if e is Addition { lem_shp_all(e->Addition_0.items.s@); } }
pub broadcast proof fn b_spos_node(e: Expression) ensures #![trigger spos(e)] e is Multiplication ==> spos(e) == (e->Multiplication_0.items.s@.len() > 0 && allp(Pr::Spos, e->Multiplication_0.items.s@)), e is Addition ==> spos(e) == (e->Addition_0.items.s@.len() > 0 && allp(Pr::Spos, e->Addition_0.items.s@)) { reveal(all_spos); if e is Multiplication { lem_spos_all(e->Multiplication_0.items.s@); } if e is Addition { lem_spos_all(e->Addition_0.items.s@); } }
/// what products of integers are
pub broadcast proof fn b_imul(a: int, b: int) ensures #![trigger big(a * b)] a > 0 && b > 0 ==> a * b > 0, a != 0 && b != 0 ==> a * b != 0, b == -1 ==> a * b == -a { assert(b == -1 ==> a * b == -a) by(nonlinear_arith); assert(a > 0 && b > 0 ==> a * b > 0) by(nonlinear_arith); assert(a != 0 && b != 0 ==> a * b != 0) by(nonlinear_arith); }
pub broadcast proof fn b_zero_all(s: Seq<Expression>) ensures #[trigger] no_zero(s) == allp(Pr::NoZero, s) { reveal(no_zero); reveal(allp); assert(allp(Pr::NoZero, s) ==> forall|i: int| 0 <= i < s.len() ==> holds(Pr::NoZero, #[trigger] s[i])); }

pub broadcast proof fn b_all_sz(s: Seq<Expression>) ensures #![trigger allp(Pr::Sz, s)] allp(Pr::Spos, s) ==> allp(Pr::Sz, s), allp(Pr::Sz, s) && allp(Pr::NoLit, s) ==> allp(Pr::Spos, s) { reveal(allp); if allp(Pr::Sz, s) && allp(Pr::NoLit, s) { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::Spos, #[trigger] s[i]) by { assert(holds(Pr::Sz, s[i])); assert(holds(Pr::NoLit, s[i])); } } }
pub broadcast proof fn b_all_nz(s: Seq<Expression>) ensures #![trigger allp(Pr::NoZero, s)] allp(Pr::NoLit, s) ==> allp(Pr::NoZero, s), allp(Pr::Spos, s) ==> allp(Pr::NoZero, s) { reveal(allp); if allp(Pr::Spos, s) { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::NoZero, #[trigger] s[i]) by { assert(holds(Pr::Spos, s[i])); } } if allp(Pr::NoLit, s) { assert forall|i: int| 0 <= i < s.len() implies holds(Pr::NoZero, #[trigger] s[i]) by { assert(holds(Pr::NoLit, s[i])); } } }
/// how many integers and real constants there are
pub broadcast proof fn b_cnt_sorted(s: Seq<Expression>) ensures #![trigger nint(sorted__(s))] #![trigger nreal(sorted__(s))] nint(sorted__(s)) == nint(s), nreal(sorted__(s)) == nreal(s) { axiom_sorted(s); lem_perm(sorted__(s), s); }
pub broadcast proof fn b_len_sorted(s: Seq<Expression>) ensures #![trigger sorted__(s).len()] sorted__(s).len() == s.len() { axiom_sorted(s); lem_perm(sorted__(s), s); }
pub broadcast proof fn b_cnt_push(s: Seq<Expression>, x: Expression) ensures #![trigger nint(s.push(x))] #![trigger nreal(s.push(x))] nint(s.push(x)) == nint(s) + (if x is Integer { 1int } else { 0 }), nreal(s.push(x)) == nreal(s) + (if x is Real { 1int } else { 0 }) { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn b_cnt_none(s: Seq<Expression>) ensures #![trigger nint(s)] #![trigger nreal(s)] allp(Pr::NoLit, s) ==> nint(s) == 0 && nreal(s) == 0 decreases s.len() { if allp(Pr::NoLit, s) && s.len() > 0 { b_all_last(Pr::NoLit, s); b_cnt_none(s.drop_last()); } }

pub proof fn lem_spos(e: Expression) requires spos(e) ensures eval(e) > 0real decreases e, 1int { broadcast use b_rm_sign; reveal(all_spos);
    match e {
        Expression::Multiplication(a) => { lem_spos_seq(a.items.s@); }
        Expression::Addition(a) => { lem_spos_seq(a.items.s@); }
        Expression::Power(p) => { lem_spos(*p.argument); axiom_rpow_pos(eval(*p.argument), eval(*p.modifier)); }
        _ => {}
    }
}
pub proof fn lem_spos_seq(s: Seq<Expression>) requires all_spos(s) ensures prodv(s) > 0real, sumv(s) >= 0real, s.len() > 0 ==> sumv(s) > 0real decreases s, s.len() { broadcast use b_rm_sign; reveal(all_spos);
    if s.len() > 0 { assert(s[s.len() - 1] == s.last()); lem_spos(s.last()); assert forall|i: int| 0 <= i < s.drop_last().len() implies spos(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lem_spos_seq(s.drop_last()); }
}
pub broadcast proof fn b_spos(e: Expression) ensures #![trigger spos(e), eval(e)] spos(e) ==> eval(e) > 0real { if spos(e) { lem_spos(e); } }
pub broadcast proof fn b_spos_seq(s: Seq<Expression>) ensures #![trigger allp(Pr::Spos, s), sumv(s)] allp(Pr::Spos, s) ==> sumv(s) >= 0real && (s.len() > 0 ==> sumv(s) > 0real) { lem_spos_all(s); if allp(Pr::Spos, s) { lem_spos_seq(s); } }
pub broadcast proof fn b_spos_seqp(s: Seq<Expression>) ensures #![trigger allp(Pr::Spos, s), prodv(s)] allp(Pr::Spos, s) ==> prodv(s) > 0real { lem_spos_all(s); if allp(Pr::Spos, s) { lem_spos_seq(s); } }
pub broadcast group g_all { b_dom_node, b_shp_node, b_spos_node, b_zero_all, b_imul, b_all_push, b_all_none, b_all_last, b_all_cat, b_all_at, b_all_sorted, b_all_any, b_all_filter, b_all_filter_out, b_all_filter_in, b_all_sz, b_all_nz, b_cnt_sorted, b_len_sorted, b_cnt_push, b_cnt_none }
// ---- what a difference promises
pub open spec fn dif(a: Expression, b: Expression, m: Expression) -> bool {
    &&& eval(m) == eval(a) - eval(b)
    &&& good(a) && good(b) ==> good(m)
    &&& shp(a) && shp(b) ==> shp(m)
    &&& a is Integer && b is Integer ==> m is Integer
}
pub proof fn vacuity_shape() ensures false { broadcast use {g_all, b_spos, b_spos_seq, b_spos_seqp, b_all_first}; axiom_rpow_pos(2real, 2real); axiom_rpow_int(2real, 2); axiom_rpow_int(-2real, 3); axiom_rlog(4real, 2real); axiom_gcd(4, 6); }
