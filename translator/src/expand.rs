//! The abbreviations used in contracts/*.rs, written out.
fn close(s: &str, open: usize) -> usize {
    let b = s.as_bytes();
    let mut d = 0i32;
    for i in open..b.len() { match b[i] { b'(' | b'{' | b'[' => d += 1, b')' | b'}' | b']' => { d -= 1; if d == 0 { return i; } } _ => {} } }
    panic!("unbalanced: {}", &s[open..(open + 60).min(s.len())])
}
fn args(s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut d = 0i32;
    for c in s.chars() { match c { '(' | '{' | '[' => d += 1, ')' | '}' | ']' => d -= 1, _ => {} } if c == ',' && d == 0 { v.push(String::new()); } else { v.last_mut().unwrap().push(c); } }
    v.into_iter().map(|x| x.trim().to_string()).collect()
}
const NAMES: &[&str] = &["SHSEQ!", "NUMOP!", "BIGOP!", "SORD!", "EQ!", "PORD!", "ASF!", "ASI!", "BIGFROM!", "CMP!", "HASH!", "VEQ!", "RETAIN!", "STUB!", "ITER!", "OPREQ"];
const X: &str = "{ unimplemented!() }";
fn one(n: &str, a: &[String], panics: bool, total: bool) -> String {
    let g = |i: usize| a.get(i).cloned().unwrap_or_default();
    let rest = |i: usize| a[i..].join(", ");
    match n {
        "OPREQ" => if panics { if g(0) == "op_neg" { String::new() } else { format!("requires self.{}__req(o),", g(0)) } } else { String::new() },
        "SHSEQ!" => format!("impl ShV for {} {{ {} }}", g(0), [("sp", "allp(Pr::Spos, self.g@)"), ("sz", "allp(Pr::Sz, self.g@)"), ("nl", "allp(Pr::NoLit, self.g@)"), ("iv", "allp(Pr::Int, self.g@)"), ("emp", "self.g@.len() == 0"), ("u0", "true"), ("u1", "true"), ("nz", "true"), ("dm", "allp(Pr::Dom, self.g@)"), ("hh", "allp(Pr::Shp, self.g@)"), ("sh", "all_shz(self.g@)")].iter().map(|(n, d)| format!("open spec fn {}(self) -> bool {{ {} }}", n, d)).collect::<Vec<_>>().join(" ")),
        "NUMOP!" => { let t = g(0); [("OpAdd", "op_add", "+"), ("OpSub", "op_sub", "-"), ("OpMul", "op_mul", "*")].iter().map(|(tr, m, o)| format!("impl {tr}<{t}> for {t} {{ type O = {t}; open spec fn {m}__req(self, o: {t}) -> bool {{ {t}::MIN <= self {o} o <= {t}::MAX }} open spec fn {m}__s(self, o: {t}) -> {t} {{ (self {o} o) as {t} }} open spec fn {m}__post(self, o: {t}, r: {t}) -> bool {{ r == self {o} o }} #[verifier::external_body] fn {m}(self, o: {t}) -> (r: {t}) {X} }}\n")).collect::<String>() + &format!("impl OpDiv<{t}> for {t} {{ type O = {t}; open spec fn op_div__req(self, o: {t}) -> bool {{ o != 0 && tdiv(self as int, o as int) <= {t}::MAX }} open spec fn op_div__s(self, o: {t}) -> {t} {{ tdiv(self as int, o as int) as {t} }} open spec fn op_div__post(self, o: {t}, r: {t}) -> bool {{ r == tdiv(self as int, o as int) }} #[verifier::external_body] fn op_div(self, o: {t}) -> (r: {t}) {X} }}\nimpl OpRem<{t}> for {t} {{ type O = {t}; open spec fn op_rem__req(self, o: {t}) -> bool {{ o != 0 }} open spec fn op_rem__s(self, o: {t}) -> {t} {{ trem(self as int, o as int) as {t} }} open spec fn op_rem__post(self, o: {t}, r: {t}) -> bool {{ r == trem(self as int, o as int) }} #[verifier::external_body] fn op_rem(self, o: {t}) -> (r: {t}) {X} }}\n") }
        "BIGOP!" => { let (tr, m, s, r, o) = (g(0), g(1), g(2), g(3), g(4)); let req = a.last().unwrap().clone(); let sp = a[5..a.len() - 1].join(", "); format!("impl {tr}<{r}> for {s} {{ type O = {o}; open spec fn {m}__req(self, o: {r}) -> bool {{ {req} }} open spec fn {m}__s(self, o: {r}) -> {o} {{ {sp} }} open spec fn {m}__post(self, o: {r}, r: {o}) -> bool {{ r == self.{m}__s(o) }} #[verifier::external_body] fn {m}(self, o: {r}) -> (r: {o}) {X} }}") }
        "SORD!" => { let (t, f) = (g(0), g(1)); format!("impl SOrd<{t}> for {t} {{ open spec fn slt(self, o: {t}) -> bool {{ self.{f} < o.{f} }} open spec fn sle(self, o: {t}) -> bool {{ self.{f} <= o.{f} }} open spec fn sgt(self, o: {t}) -> bool {{ self.{f} > o.{f} }} open spec fn sge(self, o: {t}) -> bool {{ self.{f} >= o.{f} }} }}") }
        "EQ!" => { let t = g(0); format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {t} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ {} }} }}\nimpl PartialEq for {t} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> bool {X} }}\nimpl Eq for {t} {{}}", rest(1)) }
        "PORD!" => { let t = g(0); format!("impl vstd::std_specs::cmp::PartialOrdSpecImpl for {t} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {{ {} }} }}\nimpl PartialOrd for {t} {{ #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<Ordering> {X} }}", rest(1)) }
        "ASF!" => { let t = g(0); format!("impl AsF64 for {t} {{ open spec fn as_f64__s(self) -> F64 {{ fl(self as int as real) }} #[verifier::external_body] fn as_f64(self) -> (r: F64) {X} }}") }
        "ASI!" => { let t = g(0); format!("impl AsInt for {t} {{ {} }}", ["isize", "usize", "i64"].iter().map(|u| format!("open spec fn as_{u}__s(self) -> {u} {{ self as {u} }} #[verifier::external_body] fn as_{u}(self) -> (r: {u}) {X} ")).collect::<String>()) }
        "BIGFROM!" => { let t = g(0); format!("impl BigFrom for {t} {{ open spec fn bigfrom__s(self) -> int {{ self as int }} }}") }
        "VEQ!" => { let t = g(0); format!("impl VEqS for {t} {{ open spec fn veq__s(&self, o: &Self) -> bool {{ {} }} }} impl VEq for {t} {{ #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) {X} }}", rest(1)) }
        "CMP!" => { let t = g(0); format!("impl VCmpS for {t} {{ open spec fn vcmp__s(&self, o: &Self) -> Ordering {{ {} }} }} impl VCmp for {t} {{ #[verifier::external_body] fn vcmp(&self, o: &Self) -> (r: Ordering) {X} }}", rest(1)) }
        "HASH!" => { let t = g(0); format!("impl VHashS for {t} {{ open spec fn hash__s(&self) -> Seq<HTok> {{ {} }} }} impl VHash for {t} {{ #[verifier::external_body] fn vhash(&self, state: &mut HState) {X} }}", rest(1)) }
        "STUB!" => {
            let i = a.iter().position(|x| x.ends_with("__s")).expect("STUB");
            let sig = a[..i].join(", ");
            let (head, ret) = sig.rsplit_once("->").expect("STUB");
            let name = &a[i];
            let p = head.find('(').unwrap();
            let pe = close(head, p);
            let ps = &head[p + 1..pe];
            let base = name.trim_end_matches("__s");
            let first = ps.split(',').next().unwrap_or("").trim().to_string();
            let has_self = first.ends_with("self");
            let names: Vec<String> = args(ps).iter().filter(|x| !x.is_empty()).skip(has_self as usize).map(|x| x.split(':').next().unwrap().trim().to_string()).collect();
            format!("pub open spec fn {name}({ps}) -> {ret} {{ {} }}\n    #[verifier::external_body] #[verifier::when_used_as_spec({name})] pub fn {base}({ps}) -> (r: {ret}) ensures r == {}{name}({}) {X}", a[i + 1..].join(", "), if has_self { "self." } else { "Self::" }, names.join(", "))
        }
        "ITER!" => {
            let (it, el) = (g(0), g(1));
            let v = if el.starts_with('&') { "*" } else { "" };
            let src = |b: &str| format!("#[verifier::external_body] {b} {X}\n");
            let mut o = String::new();
            o += "pub open spec fn len__i(&self) -> int { self.g@.len() as int }\n";
            o += &src("pub fn len(&self) -> (r: usize) ensures r == self.len__i()");
            o += &src("pub fn count(self) -> (r: usize) ensures r == self.len__i()");
            o += &format!("pub open spec fn filter__s(self, p: spec_fn(T) -> bool) -> {it}<T> {{ {it} {{ g: Ghost(self.g@.filter(p)) }} }}\n");
            o += "pub open spec fn map__s<B>(self, p: spec_fn(T) -> B) -> ItO<B> { ItO { g: Ghost(self.g@.map_values(p)) } }\n";
            let rq = |amp: &str| if total { format!("requires forall|i: int| 0 <= i < self.g@.len() ==> #[trigger] f.requires((&{}self.g@[i],)),", amp) } else { String::new() };
            let rqm = rq("").replace("(&self", if v == "*" { "(&self" } else { "(self" });
            let rqf = rq(if v == "*" { "&" } else { "" });
            o += &src(&format!("pub fn map<B, F: Fn({el}) -> B>(self, f: &F, Ghost(p): Ghost<MapSpec<T, B>>) -> (r: ItO<B>) {rqm} ensures mapped__(self.g@, r.g@), p is Fun && (forall|x: {el}, b: B| f.ensures((x,), b) ==> b == p->Fun_0({v}x)) ==> r == self.map__s(p->Fun_0), p is Rel && (forall|x: {el}, b: B| f.ensures((x,), b) ==> p->Rel_0({v}x, b)) ==> forall|i: int| 0 <= i < r.g@.len() ==> p->Rel_0(#[trigger] self.g@[i], r.g@[i])"));
            o += &src(&format!("pub fn filter<F: Fn(&{el}) -> bool>(self, f: &F, Ghost(p): Ghost<MapSpec<T, bool>>) -> (r: {it}<T>) {rqf} ensures p is Fun && (forall|x: &{el}, b: bool| f.ensures((x,), b) ==> b == p->Fun_0({v}*x)) ==> r == self.filter__s(p->Fun_0), sub__(self.g@, r.g@)"));
            o += &format!("pub open spec fn find__s{}(self, p: spec_fn(T) -> bool) -> {} {{ if self.g@.filter(p).len() > 0 {{ {} }} else {{ None }} }}\n", if v == "*" { "<'a>" } else { "" }, g(2).replace("&T", "&'a T"), if v == "*" { "Some(&self.g@.filter(p)[0])" } else { "Some(self.g@.filter(p)[0])" });
            o += &src(&format!("pub fn find<F: Fn(&{el}) -> bool>(&mut self, f: &F, Ghost(p): Ghost<MapSpec<T, bool>>) -> (r: {}) {} ensures p is Fun && (forall|x: &{el}, b: bool| f.ensures((x,), b) ==> b == p->Fun_0({v}*x)) ==> r == old(self).find__s(p->Fun_0)", g(2), rqf.replace("self", "old(self)")));
            for (m, q, op) in [("any", "exists", "&&"), ("all", "forall", "==>")] {
                o += &format!("pub open spec fn {m}__s(self, p: spec_fn(T) -> bool) -> bool {{ {q}|i: int| 0 <= i < self.g@.len() {op} p(#[trigger] self.g@[i]) }}\n");
                o += &src(&format!("pub fn {m}<F: Fn({el}) -> bool>(&mut self, f: &F, Ghost(p): Ghost<MapSpec<T, bool>>) -> (r: bool) {} ensures p is Fun && (forall|x: {el}, b: bool| f.ensures((x,), b) ==> b == p->Fun_0({v}x)) ==> r == old(self).{m}__s(p->Fun_0)", rqm.replace("self", "old(self)")));
            }
            o
        }
        "RETAIN!" => format!("#[verifier::external_body] pub fn retain<F: Fn(&T) -> bool>(&mut self, f: &F, Ghost(p): Ghost<MapSpec<T, bool>>) {} ensures p is Fun && (forall|x: &T, b: bool| f.ensures((x,), b) ==> b == p->Fun_0(*x)) ==> final(self).g@ == old(self).g@.filter(p->Fun_0), sub__(old(self).g@, final(self).g@) {{ unimplemented!() }}", if total { "requires forall|i: int| 0 <= i < old(self).g@.len() ==> #[trigger] f.requires((&old(self).g@[i],))," } else { "" }),
        _ => unreachable!(),
    }
}
pub fn expand(t: &str, panics: bool, total: bool) -> String {
    let mut s = t.to_string();
    loop {
        let mut hit: Option<(usize, &str)> = None;
        for n in NAMES { let mut from = 0; while let Some(i) = s[from..].find(&format!("{}(", n)) { let i = i + from; if i == 0 || !s.as_bytes()[i - 1].is_ascii_alphanumeric() { if hit.map_or(true, |h| i < h.0) { hit = Some((i, n)); } break; } from = i + 1; } }
        let Some((i, n)) = hit else { break };
        let open = i + n.len();
        let end = close(&s, open);
        let r = one(n, &args(&s[open + 1..end]), panics, total);
        s.replace_range(i..end + 1, &r);
    }
    for (n, v) in [("VABSREQ", "requires self.vabs__req(),"), ("PANICREQ", "requires false,"), ("VASSERTREQ", "requires b,"), ("UNWRAPREQ", "requires self.is_some__b(),"), ("IDXREQ", "requires i < self.g@.len(),"), ("INSREQN", "requires n <= old(self).g@.len(),"), ("INSREQ", "requires i <= old(self).g@.len(),"), ("REMREQ", "requires i < old(self).g@.len(),"), ("SWAPREQ", "requires i < old(self).g@.len(), j < old(self).g@.len(),")] { s = s.replace(n, if panics { v } else { "" }); }
    s
}
