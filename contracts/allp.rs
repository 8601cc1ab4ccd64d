// ===================== what holds of every item of a list: laws of lists (of whatever properties `holds` names) =====================
#[verifier::opaque] pub open spec fn allp(p: Pr, s: Seq<Expression>) -> bool { forall|i: int| 0 <= i < s.len() ==> holds(p, #[trigger] s[i]) }
pub broadcast proof fn b_all_push(p: Pr, s: Seq<Expression>, x: Expression) ensures #[trigger] allp(p, s.push(x)) == (allp(p, s) && holds(p, x)) { reveal(allp); let t = s.push(x);
    if allp(p, t) { assert forall|i: int| 0 <= i < s.len() implies holds(p, #[trigger] s[i]) by { assert(t[i] == s[i]); } assert(t[s.len() as int] == x); }
}
pub broadcast proof fn b_all_none(p: Pr, s: Seq<Expression>) requires s.len() == 0 ensures #[trigger] allp(p, s) { reveal(allp); }
pub broadcast proof fn b_all_last(p: Pr, s: Seq<Expression>) requires s.len() > 0 ensures #![trigger allp(p, s), s.last()] #![trigger allp(p, s.drop_last())] allp(p, s) == (allp(p, s.drop_last()) && holds(p, s.last())) { assert(s.drop_last().push(s.last()) =~= s); b_all_push(p, s.drop_last(), s.last()); }
pub broadcast proof fn b_all_first(p: Pr, s: Seq<Expression>) requires s.len() > 0 ensures #![trigger allp(p, s), s.first()] #![trigger allp(p, s.drop_first())] allp(p, s) == (allp(p, s.drop_first()) && holds(p, s.first())) { assert(seq![s.first()] + s.drop_first() =~= s); b_all_cat(p, seq![s.first()], s.drop_first()); assert(seq![s.first()] =~= Seq::empty().push(s.first())); b_all_push(p, Seq::empty(), s.first()); b_all_none(p, Seq::empty()); }
pub broadcast proof fn b_all_cat(p: Pr, s: Seq<Expression>, t: Seq<Expression>) ensures #[trigger] allp(p, s + t) == (allp(p, s) && allp(p, t)) decreases t.len() {
    if t.len() == 0 { assert(s + t =~= s); b_all_none(p, t); } else { assert((s + t).drop_last() =~= s + t.drop_last()); b_all_cat(p, s, t.drop_last()); b_all_last(p, t); b_all_last(p, s + t); }
}
pub broadcast proof fn b_all_at(p: Pr, s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures #![trigger allp(p, s), s[i]] allp(p, s) ==> holds(p, s[i]) { reveal(allp); }
pub proof fn lem_count_in(s: Seq<Expression>, x: Expression) requires s.to_multiset().count(x) > 0 ensures exists|j: int| 0 <= j < s.len() && s[j] == x { s.to_multiset_ensures(); assert(s.contains(x)); let j = s.index_of(x); assert(s[j] == x); }
pub proof fn lem_in_count(s: Seq<Expression>, i: int) requires 0 <= i < s.len() ensures s.to_multiset().count(s[i]) > 0 { s.to_multiset_ensures(); assert(s.contains(s[i])); }
pub proof fn lem_all_perm1(p: Pr, s: Seq<Expression>, t: Seq<Expression>) requires s.to_multiset() == t.to_multiset(), allp(p, s) ensures allp(p, t) { reveal(allp);
    assert forall|i: int| 0 <= i < t.len() implies holds(p, #[trigger] t[i]) by { lem_in_count(t, i); lem_count_in(s, t[i]); }
}
pub broadcast proof fn b_all_sorted(p: Pr, s: Seq<Expression>) ensures #[trigger] allp(p, sorted__(s)) == allp(p, s) { axiom_sorted(s); if allp(p, s) { lem_all_perm1(p, s, sorted__(s)); } if allp(p, sorted__(s)) { lem_all_perm1(p, sorted__(s), s); } }
pub broadcast proof fn b_all_any(p: Pr, s: Seq<Expression>) ensures #[trigger] allp(p, anyorder__(s)) == allp(p, s) { axiom_anyorder(s); if allp(p, s) { lem_all_perm1(p, s, anyorder__(s)); } if allp(p, anyorder__(s)) { lem_all_perm1(p, anyorder__(s), s); } }
pub broadcast proof fn b_all_filter(p: Pr, s: Seq<Expression>, q: spec_fn(Expression) -> bool) ensures #![trigger allp(p, s.filter(q))] allp(p, s) ==> allp(p, s.filter(q)) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1); b_all_none(p, Seq::empty());
    if s.len() > 0 { let d = s.drop_last(); b_all_filter(p, d, q); b_all_last(p, s); b_all_push(p, d.filter(q), s.last()); } else { assert(s.filter(q) =~= Seq::empty()); }
}
/// choosing only leaves out what has the property
pub broadcast proof fn b_all_filter_out(p: Pr, s: Seq<Expression>, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && !q(#[trigger] s[i]) ==> holds(p, s[i]) ensures #![trigger allp(p, s.filter(q))] allp(p, s.filter(q)) == allp(p, s) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1); b_all_none(p, Seq::empty());
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && !q(#[trigger] d[i]) implies holds(p, d[i]) by { assert(s[i] == d[i]); } b_all_filter_out(p, d, q); b_all_last(p, s); b_all_push(p, d.filter(q), s.last()); assert(s[s.len() - 1] == s.last()); } else { assert(s.filter(q) =~= Seq::empty()); b_all_none(p, s); }
}
/// choosing only what has the property
pub broadcast proof fn b_all_filter_in(p: Pr, s: Seq<Expression>, q: spec_fn(Expression) -> bool) requires forall|i: int| 0 <= i < s.len() && q(#[trigger] s[i]) ==> holds(p, s[i]) ensures #![trigger allp(p, s.filter(q))] allp(p, s.filter(q)) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1); b_all_none(p, Seq::empty());
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() && q(#[trigger] d[i]) implies holds(p, d[i]) by { assert(s[i] == d[i]); } b_all_filter_in(p, d, q); b_all_last(p, s); b_all_push(p, d.filter(q), s.last()); assert(s[s.len() - 1] == s.last()); } else { assert(s.filter(q) =~= Seq::empty()); }
}
pub proof fn lem_all_imp(p: Pr, q: Pr, s: Seq<Expression>) requires allp(p, s), forall|e: Expression| #[trigger] holds(p, e) ==> holds(q, e) ensures allp(q, s) { reveal(allp); }
pub broadcast proof fn b_filter_at(s: Seq<Expression>, p: spec_fn(Expression) -> bool) ensures #![trigger s.filter(p)] s.filter(p).len() > 0 ==> p(s.filter(p)[0]) decreases s.len() {
    reveal_with_fuel(Seq::filter, 1);
    if s.len() > 0 { let d = s.drop_last(); b_filter_at(d, p); } else { assert(s.filter(p) =~= Seq::empty()); }
}
pub broadcast proof fn b_filter_has(pr: Pr, s: Seq<Expression>, p: spec_fn(Expression) -> bool) ensures #![trigger allp(pr, s), s.filter(p)] allp(pr, s) && s.filter(p).len() > 0 ==> holds(pr, s.filter(p)[0]) { b_all_filter(pr, s, p); let t = s.filter(p); if allp(pr, s) && t.len() > 0 { b_all_at(pr, t, 0); } }
