// ===================== what the tables of terms and factors hold =====================

pub type msT = (Expression, Symbol<BigInt>);
pub open spec fn msv(s: Seq<msT>) -> real decreases s.len() { if s.len() == 0 { 0real } else { msv(s.drop_last()) + mw(s.last()) } }
#[verifier::opaque] pub open spec fn msall(p: int, s: Seq<msT>) -> bool { forall|i: int| 0 <= i < s.len() ==> mshas(p, #[trigger] s[i]) }
#[verifier::opaque] pub open spec fn msdist(s: Seq<msT>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub broadcast proof fn b_ms_none(p: int, s: Seq<msT>) requires s.len() == 0 ensures #![trigger msall(p, s)] msall(p, s) { reveal(msall); }
pub broadcast proof fn b_ms_dnone(s: Seq<msT>) requires s.len() == 0 ensures #![trigger msdist(s)] msdist(s) { reveal(msdist); }
pub broadcast proof fn b_ms_push(p: int, s: Seq<msT>, y: msT) ensures #![trigger msall(p, s.push(y))] msall(p, s.push(y)) == (msall(p, s) && mshas(p, y)) { reveal(msall); let t = s.push(y); assert(t[s.len() as int] == y); assert forall|i: int| 0 <= i < s.len() implies t[i] == #[trigger] s[i] by {} if msall(p, t) { assert forall|i: int| 0 <= i < s.len() implies mshas(p, #[trigger] s[i]) by { assert(mshas(p, t[i])); } } }
pub broadcast proof fn b_ms_remove(p: int, s: Seq<msT>, i: int) requires 0 <= i < s.len() ensures #![trigger msall(p, s), s.remove(i)] #![trigger msall(p, s.remove(i))] msall(p, s) == (msall(p, s.remove(i)) && mshas(p, s[i])) { reveal(msall); let t = s.remove(i); assert forall|j: int| 0 <= j < s.len() && j != i implies #[trigger] s[j] == t[if j < i { j } else { j - 1 }] by {} if msall(p, s) { assert(mshas(p, s[i])); assert forall|j: int| 0 <= j < t.len() implies mshas(p, #[trigger] t[j]) by { let k = if j < i { j } else { j + 1 }; assert(mshas(p, s[k])); assert(t[j] == s[k]); } } if msall(p, t) && mshas(p, s[i]) { assert forall|j: int| 0 <= j < s.len() implies mshas(p, #[trigger] s[j]) by { if j != i { let k = if j < i { j } else { j - 1 }; assert(mshas(p, t[k])); } } } }
pub broadcast proof fn b_ms_dpush(s: Seq<msT>, y: msT) ensures #![trigger msdist(s.push(y))] msdist(s) && !mhas__(s, y.0) ==> msdist(s.push(y)) { reveal(msdist); }
pub broadcast proof fn b_ms_dremove(s: Seq<msT>, i: int) requires 0 <= i < s.len() ensures #![trigger s.remove(i)] msdist(s) ==> msdist(s.remove(i)) && !mhas__(s.remove(i), s[i].0) { reveal(msdist); let t = s.remove(i); if msdist(s) {
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).0 != (#[trigger] t[b]).0 by { let (c, d) = (if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 }); assert(t[a] == s[c] && t[b] == s[d]); }
    if mhas__(t, s[i].0) { let j = mpos__(t, s[i].0); let k = if j < i { j } else { j + 1 }; assert(t[j] == s[k]); if k < i { assert(s[k].0 != s[i].0); } else { assert(s[i].0 != s[k].0); } } } }
pub broadcast proof fn b_ms_vpush(s: Seq<msT>, y: msT) ensures #![trigger msv(s.push(y))] msv(s.push(y)) == msv(s) + mw(y) { assert(s.push(y).drop_last() =~= s); }
pub broadcast proof fn b_ms_vremove(s: Seq<msT>, i: int) requires 0 <= i < s.len() ensures #![trigger msv(s.remove(i))] msv(s) == msv(s.remove(i)) + mw(s[i]) decreases s.len() { broadcast use b_rm_swap;
    let n = s.len() - 1; if i == n { assert(s.remove(i) =~= s.drop_last()); } else { assert(s.remove(i) =~= s.drop_last().remove(i).push(s.last())); b_ms_vpush(s.drop_last().remove(i), s.last()); b_ms_vremove(s.drop_last(), i); } }
pub broadcast proof fn b_ms_vfilter(s: Seq<msT>, p: spec_fn(msT) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) && mshas(0, s[i]) ==> mw(s[i]) == 0real ensures #![trigger msv(s.filter(p))] msall(0, s) ==> msv(s.filter(p)) == msv(s) decreases s.len() { reveal_with_fuel(Seq::filter, 1); broadcast use b_rm_unit, b_rm_comm;
    if s.len() > 0 && msall(0, s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_ms_remove(0, s, s.len() - 1); assert forall|i: int| 0 <= i < d.len() && !p(#[trigger] d[i]) && mshas(0, d[i]) implies mw(d[i]) == 0real by { assert(d[i] == s[i]); } b_ms_vfilter(d, p); assert(s[s.len() - 1] == s.last()); b_ms_vpush(d.filter(p), s.last()); } }
pub broadcast proof fn b_ms_filter(q: int, s: Seq<msT>, p: spec_fn(msT) -> bool) ensures #![trigger msall(q, s.filter(p))] msall(q, s) ==> msall(q, s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 && msall(q, s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_ms_remove(q, s, s.len() - 1); b_ms_filter(q, d, p); assert(s[s.len() - 1] == s.last()); b_ms_push(q, d.filter(p), s.last()); } }
impl SumV for HashMap<Expression, Symbol<BigInt>> { open spec fn sv(self) -> real { msv(self.g@) } }
pub broadcast group g_ms { b_ms_none, b_ms_dnone, b_ms_push, b_ms_remove, b_ms_dpush, b_ms_dremove, b_ms_vpush, b_ms_vremove, b_ms_vfilter, b_ms_filter }

/// so many times this
pub open spec fn mw(t: msT) -> real { rm(ir(t.1.data.g@), eval(t.0)) }
/// 0: defined, 1: as construction leaves it, 2: positive
pub open spec fn mshas(p: int, t: msT) -> bool { if p == 0 { dom(t.0) } else if p == 1 { shp(t.0) } else { spos(t.0) && t.1.data.g@ > 0 } }
pub trait MV: Sized { spec fn m0(self) -> bool; spec fn m1(self) -> bool; spec fn m2(self) -> bool; spec fn md(self) -> bool; }
impl MV for HashMap<Expression, Symbol<BigInt>> { open spec fn m0(self) -> bool { msall(0, self.g@) } open spec fn m1(self) -> bool { msall(1, self.g@) } open spec fn m2(self) -> bool { msall(2, self.g@) } open spec fn md(self) -> bool { msdist(self.g@) } }
/// a term was entered
pub open spec fn entered(s: Seq<msT>, k: Expression, c: int, t: Seq<msT>) -> bool {
    &&& msdist(s) ==> msdist(t) && msv(t) == msv(s) + rm(ir(c), eval(k))
    &&& msdist(s) && msall(0, s) && dom(k) ==> msall(0, t)
    &&& msdist(s) && msall(1, s) && shp(k) ==> msall(1, t)
    &&& msdist(s) && msall(2, s) && spos(k) && c > 0 ==> msall(2, t)
}
pub broadcast proof fn b_mw(x: msT, y: msT) ensures #![trigger mw(x), mw(y)] x.0 == y.0 ==> mw(y) == mw(x) + rm(ir(y.1.data.g@ - x.1.data.g@), eval(x.0)) && mw(y) == mw(x) + rm(ir(x.1.data.g@ - y.1.data.g@), -eval(x.0)) {
    if x.0 == y.0 { let (c, d, e) = (x.1.data.g@, y.1.data.g@, eval(x.0)); lem_rm_dist(e, ir(c), ir(d - c)); broadcast use b_rm_comm, b_rm_unit; b_rm_assoc(ir(c - d), -1real, e); assert(rm(-1real, ir(c - d)) == ir(d - c)); assert(rm(-1real, e) == -e); }
}
/// so many times this, as an expression
pub open spec fn mterm(t: msT, e: Expression) -> bool {
    &&& eval(e) == mw(t)
    &&& good(t.0) ==> good(e)
    &&& shp(t.0) ==> shp(e)
    &&& spos(t.0) && t.1.data.g@ > 0 ==> spos(e)
}
pub broadcast proof fn b_mterms(s: Seq<msT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() ==> mterm(#[trigger] s[i], t[i]) ensures #![trigger mapped__(s, t)]
    mapped__(s, t) ==> sumv(t) == msv(s),
    mapped__(s, t) && msall(0, s) && msall(1, s) ==> all_good(t),
    mapped__(s, t) && msall(1, s) ==> allp(Pr::Shp, t),
    mapped__(s, t) && msall(2, s) ==> allp(Pr::Spos, t)
    decreases s.len()
{
    broadcast use b_all_last, b_all_none;
    if mapped__(s, t) && s.len() > 0 {
        let (d, e) = (s.drop_last(), t.drop_last()); let n = s.len() - 1; assert(s.remove(n) =~= d);
        assert forall|i: int| 0 <= i < d.len() implies mterm(#[trigger] d[i], e[i]) by { assert(d[i] == s[i] && e[i] == t[i]); }
        assert(mapped__(d, e)); b_mterms(d, e); assert(mterm(s[n], t[n])); assert(s.last() == s[n] && t.last() == t[n]);
        b_ms_remove(0, s, n); b_ms_remove(1, s, n); b_ms_remove(2, s, n);
    }
}
/// the choice of at most one whole factor, and the rest
pub broadcast proof fn b_split_int(s: Seq<Expression>, p: spec_fn(Expression) -> bool, q: spec_fn(Expression) -> bool)
    requires nint(s) <= 1, s.filter(p).len() > 0, forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == (s[i] is Integer) && q(s[i]) == !(s[i] is Integer)
    ensures #![trigger s.filter(p), s.filter(q)] prodv(s) == rm(eval(s.filter(p)[0]), prodv(s.filter(q))) { b_part_int(s, p, q); }

pub type mpT = (Expression, Expression);
pub open spec fn mpv(s: Seq<mpT>) -> real decreases s.len() { if s.len() == 0 { 1real } else { rm(mpv(s.drop_last()), pw(s.last())) } }
#[verifier::opaque] pub open spec fn mpall(p: int, s: Seq<mpT>) -> bool { forall|i: int| 0 <= i < s.len() ==> mphas(p, #[trigger] s[i]) }
#[verifier::opaque] pub open spec fn mpdist(s: Seq<mpT>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub broadcast proof fn b_mp_none(p: int, s: Seq<mpT>) requires s.len() == 0 ensures #![trigger mpall(p, s)] mpall(p, s) { reveal(mpall); }
pub broadcast proof fn b_mp_dnone(s: Seq<mpT>) requires s.len() == 0 ensures #![trigger mpdist(s)] mpdist(s) { reveal(mpdist); }
pub broadcast proof fn b_mp_push(p: int, s: Seq<mpT>, y: mpT) ensures #![trigger mpall(p, s.push(y))] mpall(p, s.push(y)) == (mpall(p, s) && mphas(p, y)) { reveal(mpall); let t = s.push(y); assert(t[s.len() as int] == y); assert forall|i: int| 0 <= i < s.len() implies t[i] == #[trigger] s[i] by {} if mpall(p, t) { assert forall|i: int| 0 <= i < s.len() implies mphas(p, #[trigger] s[i]) by { assert(mphas(p, t[i])); } } }
pub broadcast proof fn b_mp_remove(p: int, s: Seq<mpT>, i: int) requires 0 <= i < s.len() ensures #![trigger mpall(p, s), s.remove(i)] #![trigger mpall(p, s.remove(i))] mpall(p, s) == (mpall(p, s.remove(i)) && mphas(p, s[i])) { reveal(mpall); let t = s.remove(i); assert forall|j: int| 0 <= j < s.len() && j != i implies #[trigger] s[j] == t[if j < i { j } else { j - 1 }] by {} if mpall(p, s) { assert(mphas(p, s[i])); assert forall|j: int| 0 <= j < t.len() implies mphas(p, #[trigger] t[j]) by { let k = if j < i { j } else { j + 1 }; assert(mphas(p, s[k])); assert(t[j] == s[k]); } } if mpall(p, t) && mphas(p, s[i]) { assert forall|j: int| 0 <= j < s.len() implies mphas(p, #[trigger] s[j]) by { if j != i { let k = if j < i { j } else { j - 1 }; assert(mphas(p, t[k])); } } } }
pub broadcast proof fn b_mp_dpush(s: Seq<mpT>, y: mpT) ensures #![trigger mpdist(s.push(y))] mpdist(s) && !mhas__(s, y.0) ==> mpdist(s.push(y)) { reveal(mpdist); }
pub broadcast proof fn b_mp_dremove(s: Seq<mpT>, i: int) requires 0 <= i < s.len() ensures #![trigger s.remove(i)] mpdist(s) ==> mpdist(s.remove(i)) && !mhas__(s.remove(i), s[i].0) { reveal(mpdist); let t = s.remove(i); if mpdist(s) {
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).0 != (#[trigger] t[b]).0 by { let (c, d) = (if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 }); assert(t[a] == s[c] && t[b] == s[d]); }
    if mhas__(t, s[i].0) { let j = mpos__(t, s[i].0); let k = if j < i { j } else { j + 1 }; assert(t[j] == s[k]); if k < i { assert(s[k].0 != s[i].0); } else { assert(s[i].0 != s[k].0); } } } }
pub broadcast proof fn b_mp_vpush(s: Seq<mpT>, y: mpT) ensures #![trigger mpv(s.push(y))] mpv(s.push(y)) == rm(mpv(s), pw(y)) { assert(s.push(y).drop_last() =~= s); }
pub broadcast proof fn b_mp_vremove(s: Seq<mpT>, i: int) requires 0 <= i < s.len() ensures #![trigger mpv(s.remove(i))] mpv(s) == rm(mpv(s.remove(i)), pw(s[i])) decreases s.len() { broadcast use b_rm_swap;
    let n = s.len() - 1; if i == n { assert(s.remove(i) =~= s.drop_last()); } else { assert(s.remove(i) =~= s.drop_last().remove(i).push(s.last())); b_mp_vpush(s.drop_last().remove(i), s.last()); b_mp_vremove(s.drop_last(), i); } }
pub broadcast proof fn b_mp_vfilter(s: Seq<mpT>, p: spec_fn(mpT) -> bool) requires forall|i: int| 0 <= i < s.len() && !p(#[trigger] s[i]) && mphas(0, s[i]) ==> pw(s[i]) == 1real ensures #![trigger mpv(s.filter(p))] mpall(0, s) ==> mpv(s.filter(p)) == mpv(s) decreases s.len() { reveal_with_fuel(Seq::filter, 1); broadcast use b_rm_unit, b_rm_comm;
    if s.len() > 0 && mpall(0, s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_mp_remove(0, s, s.len() - 1); assert forall|i: int| 0 <= i < d.len() && !p(#[trigger] d[i]) && mphas(0, d[i]) implies pw(d[i]) == 1real by { assert(d[i] == s[i]); } b_mp_vfilter(d, p); assert(s[s.len() - 1] == s.last()); b_mp_vpush(d.filter(p), s.last()); } }
pub broadcast proof fn b_mp_filter(q: int, s: Seq<mpT>, p: spec_fn(mpT) -> bool) ensures #![trigger mpall(q, s.filter(p))] mpall(q, s) ==> mpall(q, s.filter(p)) decreases s.len() { reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 && mpall(q, s) { let d = s.drop_last(); assert(s.remove(s.len() - 1) =~= d); b_mp_remove(q, s, s.len() - 1); b_mp_filter(q, d, p); assert(s[s.len() - 1] == s.last()); b_mp_push(q, d.filter(p), s.last()); } }
impl ProdV for HashMap<Expression, Expression> { open spec fn pv(self) -> real { mpv(self.g@) } }
pub broadcast group g_mp { b_mp_none, b_mp_dnone, b_mp_push, b_mp_remove, b_mp_dpush, b_mp_dremove, b_mp_vpush, b_mp_vremove, b_mp_vfilter, b_mp_filter }

/// this to that power
pub open spec fn pw(t: mpT) -> real { rpow(eval(t.0), eval(t.1)) }
/// 0: defined, 1: as construction leaves it, 2: positive
pub open spec fn mphas(p: int, t: mpT) -> bool { if p == 0 { good(t.0) && good(t.1) && pdom(t.0, t.1) && !zero_lit(t.0) } else if p == 1 { shp(t.0) && shp(t.1) } else { spos(t.0) } }
impl MV for HashMap<Expression, Expression> { open spec fn m0(self) -> bool { mpall(0, self.g@) } open spec fn m1(self) -> bool { mpall(1, self.g@) } open spec fn m2(self) -> bool { mpall(2, self.g@) } open spec fn md(self) -> bool { mpdist(self.g@) } }
/// base and exponent of a factor
pub open spec fn fb(f: Expression) -> Expression { if f is Power { *f->Power_0.argument } else { f } }
pub open spec fn fe(f: Expression) -> real { if f is Power { eval(*f->Power_0.modifier) } else { 1real } }
pub open spec fn fint(f: Expression) -> bool { f is Power ==> *f->Power_0.modifier is Integer }
/// k stands for one over b
pub open spec fn invof(b: Expression, k: Expression) -> bool {
    &&& good(b) && !zero_lit(b) && dom(k) ==> eval(b) != 0real && eval(k) == rpow(eval(b), ir(-1))
    &&& good(b) && spos(b) ==> spos(k)
}
pub broadcast proof fn b_invof(e: Expression, b: Expression, k: Expression) ensures #![trigger dvr(e, b, k)] e is Integer && int_of(e) == 1 && dvr(e, b, k) ==> invof(b, k) { if good(b) && e is Integer && int_of(e) == 1 && dvr(e, b, k) && dom(k) && !zero_lit(b) { b_inv(eval(b)); } }
/// a factor as it is entered
pub proof fn lem_factor(f: Expression) requires good(f) ensures eval(f) == rpow(eval(fb(f)), fe(f)), good(fb(f)), spos(f) == spos(fb(f)), spos(fb(f)) || (fint(f) && (eval(fb(f)) != 0real || (f is Power ==> int_of(*f->Power_0.modifier) > 0))) { broadcast use b_power_node; if !(f is Power) { b_rpow_unit(eval(f), 1real); } }
pub broadcast proof fn b_new_factor(s: Seq<mpT>, y: mpT, f: Expression) ensures #![trigger mpv(s.push(y)), rm(mpv(s), eval(f))] good(f) && !zero_lit(fb(f)) && y.0 == fb(f) && (if f is Power { y.1 == *f->Power_0.modifier } else { y.1 is Integer && int_of(y.1) == 1 }) ==> mphas(0, y) && mpv(s.push(y)) == rm(mpv(s), eval(f)) { broadcast use b_power_node, b_lit_node; b_mp_vpush(s, y); if good(f) { lem_factor(f); } }
pub broadcast proof fn b_join(s: Seq<mpT>, i: int, y: mpT, f: Expression) requires 0 <= i < s.len() ensures #![trigger mpv(s.remove(i).push(y)), rm(mpv(s), eval(f))]
    good(f) && !zero_lit(fb(f)) && mphas(0, s[i]) && s[i].0 == y.0 && y.0 == fb(f) && good(y.1) && eval(y.1) == eval(s[i].1) + fe(f) && (s[i].1 is Integer && fint(f) ==> y.1 is Integer) ==> mphas(0, y) && mpv(s.remove(i).push(y)) == rm(mpv(s), eval(f))
{
    if good(f) && !zero_lit(fb(f)) && mphas(0, s[i]) && s[i].0 == y.0 && y.0 == fb(f) && good(y.1) && eval(y.1) == eval(s[i].1) + fe(f) && (s[i].1 is Integer && fint(f) ==> y.1 is Integer) {
        lem_factor(f); let (k, x) = s[i]; let b = eval(k);
        if spos(k) { b_spos(k); lem_rpow_add(b, eval(x), fe(f)); } else { let (n, m) = (int_of(x), if f is Power { int_of(*f->Power_0.modifier) } else { 1 }); assert(fe(f) == ir(m)); assert(ir(int_of(y.1)) == ir(n + m)); if b != 0real { lem_rpow_add_int(b, n, m); } else { axiom_rpow_int(b, n); axiom_rpow_int(b, m); axiom_rpow_int(b, n + m); broadcast use b_rm_unit; } }
        b_mp_vpush(s.remove(i), y); b_mp_vremove(s, i); b_rm_assoc(mpv(s.remove(i)), pw(s[i]), eval(f));
    }
}
pub broadcast proof fn b_join_inv(s: Seq<mpT>, i: int, y: mpT, f: Expression) requires 0 <= i < s.len() ensures #![trigger mpv(s.remove(i).push(y)), invof(fb(f), s[i].0), rm(mpv(s), eval(f))]
    good(f) && !zero_lit(fb(f)) && mphas(0, s[i]) && s[i].0 == y.0 && invof(fb(f), y.0) && good(y.1) && eval(y.1) == eval(s[i].1) - fe(f) && (s[i].1 is Integer && fint(f) ==> y.1 is Integer) ==> mphas(0, y) && mpv(s.remove(i).push(y)) == rm(mpv(s), eval(f))
{
    if good(f) && !zero_lit(fb(f)) && mphas(0, s[i]) && s[i].0 == y.0 && invof(fb(f), y.0) && good(y.1) && eval(y.1) == eval(s[i].1) - fe(f) && (s[i].1 is Integer && fint(f) ==> y.1 is Integer) {
        lem_factor(f); let (k, x) = s[i]; let c = eval(k); let b = eval(fb(f)); lem_inv(b);
        if spos(k) { b_spos(k); assert(b > 0real) by { b_lg(rpow(b, ir(-1)), b); } lem_rpow_add(c, eval(x), -fe(f)); b_rpow_rpow(b, ir(-1), -fe(f)); broadcast use b_rm_unit; assert(rm(-1real, -fe(f)) == fe(f)); assert(eval(y.1) == eval(x) + -fe(f)); }
        else { assert(!spos(fb(f))); let (n, m) = (int_of(x), if f is Power { int_of(*f->Power_0.modifier) } else { 1 }); assert(fe(f) == ir(m)); assert(ir(int_of(y.1)) == ir(n - m)); lem_rpow_add_int(c, n, -m); b_rpow_rpow_int(b, -1, -m); assert(-1 * -m == m); assert(n + -m == n - m); }
        b_mp_vpush(s.remove(i), y); b_mp_vremove(s, i); b_rm_assoc(mpv(s.remove(i)), pw(s[i]), eval(f));
    }
}
/// what is entered, times what is left to visit
pub broadcast proof fn b_mpv_first(s: Seq<mpT>, u: Seq<Expression>) requires u.len() > 0 ensures #![trigger rm(mpv(s), prodv(u)), u.first()] rm(mpv(s), prodv(u)) == rm(rm(mpv(s), eval(u.first())), prodv(u.drop_first())) { b_rm_prod_first(u, mpv(s)); }
/// powers of the entries
pub broadcast proof fn b_mpowers(s: Seq<mpT>, t: Seq<Expression>) requires forall|i: int| 0 <= i < s.len() ==> pwr((#[trigger] s[i]).0, s[i].1, t[i]) ensures #![trigger mapped__(s, t)]
    mapped__(s, t) && mpall(0, s) ==> all_good(t) && prodv(t) == mpv(s),
    mapped__(s, t) && mpall(1, s) ==> allp(Pr::Shp, t),
    mapped__(s, t) && mpall(0, s) && mpall(2, s) ==> allp(Pr::Spos, t)
    decreases s.len()
{
    broadcast use b_all_last, b_all_none;
    if mapped__(s, t) && s.len() > 0 {
        let (d, e) = (s.drop_last(), t.drop_last()); let n = s.len() - 1; assert(s.remove(n) =~= d);
        assert forall|i: int| 0 <= i < d.len() implies pwr((#[trigger] d[i]).0, d[i].1, e[i]) by { assert(d[i] == s[i] && e[i] == t[i]); }
        assert(mapped__(d, e)); b_mpowers(d, e); assert(pwr(s[n].0, s[n].1, t[n])); assert(s.last() == s[n] && t.last() == t[n]);
        b_mp_remove(0, s, n); b_mp_remove(1, s, n); b_mp_remove(2, s, n);
    }
}
pub broadcast group g_mpx { b_invof, b_new_factor, b_join, b_join_inv, b_mpv_first, b_mpowers }
pub proof fn vacuity_maps() ensures false { broadcast use {g_ms, g_mp, g_mpx, b_mw, b_mterms, b_split_int}; }
