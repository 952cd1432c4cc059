// ------------------------------------------------------------------------------------------
// Specification: signing thresholds
// ------------------------------------------------------------------------------------------
// @ext num_rational::Rational32 num_rational::Rational64
pub use extd::num_rational::{Rational32, Rational64, ax_r32};
pub struct Q { pub n: int, pub d: int }
pub open spec fn gcd(a: int, b: int) -> int decreases b when b >= 0 { if b == 0 { a } else { gcd(b, a % b) } }
pub open spec fn red(n: int, d: int) -> Q { let g = gcd(n, d); Q { n: n / g, d: d / g } }
pub open spec fn q_str(q: Q) -> Seq<u8> { if q.d == 1 { dec_digits(q.n as nat) } else { dec_digits(q.n as nat) + seq![47u8] + dec_digits(q.d as nat) } }
pub open spec fn q_txt(q: Q) -> Seq<u8> { if q.d == 1 { dec_digits(q.n as nat) } else { dec_digits(q.n as nat) + seq![115u8] + dec_digits(q.d as nat) } }
pub open spec fn q0() -> Q { Q { n: 0, d: 1 } }
// a fraction the code can hold
pub open spec fn q_ok(q: Q) -> bool { 0 <= q.n <= i32::MAX && 0 < q.d <= i32::MAX && red(q.n, q.d) == q }
// exact sum of two fractions, if it fits
pub open spec fn q_addc(a: Q, b: Q) -> Option<Q> { let r = red(a.n * b.d + b.n * a.d, a.d * b.d); if r.n <= i32::MAX && r.d <= i32::MAX { Some(r) } else { None } }

// ---- weights ---------------------------------------------------------------------------------
pub open spec fn w_one(t: Seq<u8>) -> Option<Q> {
    let p = split_at(t, 47);
    if p.len() == 1 { if p[0] == seq![48u8] { Some(red(0, 1)) } else if p[0] == seq![49u8] { Some(red(1, 1)) } else { None } }
    else if p.len() == 2 { match (p_i32(p[0]), p_i32(p[1])) { (Some(n), Some(d)) => if 0 <= n <= d && d > 0 { Some(red(n, d)) } else { None }, _ => None } }
    else { None }
}
pub open spec fn w_w(x: DV) -> Option<Q> { match x { DV::Str(t) => w_one(t), _ => None } }
pub open spec fn w_clause_ok(c: DV) -> bool { c is Arr && forall|i: int| 0 <= i < c->Arr_0.len() ==> w_w(#[trigger] c->Arr_0[i]).is_some() }
pub open spec fn w_clause(c: DV) -> Seq<Q> { Seq::new(c->Arr_0.len(), |i: int| w_w(c->Arr_0[i])->Some_0) }
pub open spec fn w_all_ok(d: DV) -> bool { d is Arr && forall|i: int| 0 <= i < d->Arr_0.len() ==> w_clause_ok(#[trigger] d->Arr_0[i]) }
pub open spec fn w_all(d: DV) -> Seq<Seq<Q>> { Seq::new(d->Arr_0.len(), |i: int| w_clause(d->Arr_0[i])) }
// running sum, exact; None as soon as a partial sum does not fit
pub open spec fn w_sum(c: Seq<Q>) -> Option<Q> decreases c.len() { if c.len() == 0 { Some(q0()) } else { match w_sum(c.drop_last()) { Some(a) => q_addc(a, c.last()), None => None } } }
pub open spec fn w_full(c: Seq<Q>) -> bool { match w_sum(c) { Some(s) => s.n >= s.d, None => false } }
// the clauses of a threshold: every weight between 0 and 1, every clause able to reach 1
pub open spec fn w_of(d: DV) -> Option<Seq<Seq<Q>>> { if w_all_ok(d) && (forall|i: int| 0 <= i < w_all(d).len() ==> w_full(#[trigger] w_all(d)[i])) { Some(w_all(d)) } else { None } }
pub open spec fn w_tot(cl: Seq<Seq<Q>>) -> int decreases cl.len() { if cl.len() == 0 { 0 } else { w_tot(cl.drop_last()) + cl.last().len() } }
pub open spec fn w_cdv(c: Seq<Q>) -> DV { DV::Arr(Seq::new(c.len(), |i: int| DV::Str(q_str(c[i])))) }
pub open spec fn w_dv(cl: Seq<Seq<Q>>) -> DV { DV::Arr(Seq::new(cl.len(), |i: int| w_cdv(cl[i]))) }
pub open spec fn w_ctxts(c: Seq<Q>) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| q_txt(c[i])) }
pub open spec fn w_ctxt(c: Seq<Q>) -> Seq<u8> { joined(w_ctxts(c), seq![99u8]) }
pub open spec fn w_txts(cl: Seq<Seq<Q>>) -> Seq<Seq<u8>> { Seq::new(cl.len(), |i: int| w_ctxt(cl[i])) }
pub open spec fn w_txt(cl: Seq<Seq<Q>>) -> Seq<u8> { joined(w_txts(cl), seq![97u8]) }
// reading the text form back
pub open spec fn w_rclause(t: Seq<u8>) -> DV { let p = split_at(t, 99); DV::Arr(Seq::new(p.len(), |i: int| DV::Str(p[i]))) }
pub open spec fn w_read(t: Seq<u8>) -> DV { let p = split_at(repl(t, 115, 47), 97); DV::Arr(Seq::new(p.len(), |i: int| w_rclause(p[i]))) }
// how many weights an expression lists (at least one per clause)
pub open spec fn w_c1(x: DV) -> int { if x is Arr && x->Arr_0.len() > 0 { x->Arr_0.len() as int } else { 1 } }
pub open spec fn w_cnt(a: Seq<DV>) -> int decreases a.len() { if a.len() == 0 { 0 } else { w_cnt(a.drop_last()) + w_c1(a.last()) } }
pub spec const W_MAX: int = 0x0400_0000;
pub open spec fn w_fits(d: DV) -> bool { d is Arr ==> w_cnt(d->Arr_0) <= W_MAX }
pub open spec fn th_fits(d: DV) -> bool { w_fits(d) && (d is Str && jparse(d->Str_0).is_some() ==> w_fits(jparse(d->Str_0)->Some_0)) }

// ---- thresholds ------------------------------------------------------------------------------
pub struct TV { pub weighted: bool, pub thold: DV, pub size: int, pub number: Option<MV>, pub bexter: Option<MV> }
pub open spec fn th_num(n: int) -> Option<TV> { if 0 <= n <= u32::MAX { Some(TV { weighted: false, thold: DV::Int(n), size: n, number: Some(n_mv(n)), bexter: None }) } else { None } }
pub open spec fn th_w(d: DV) -> Option<TV> {
    match w_of(d) { Some(cl) if cl.len() > 0 => match bx_given(seq![52u8, 65u8], w_txt(cl)) {
            Some(m) => Some(TV { weighted: true, thold: w_dv(cl), size: w_tot(cl), number: None, bexter: Some(m) }), None => None }, _ => None }
}
pub open spec fn th_thold(d: DV) -> Option<TV> { match d { DV::Int(n) if i64::MIN <= n <= i64::MAX => th_num(n), _ => th_w(d) } }
pub open spec fn th_limen(l: Seq<u8>) -> Option<TV> {
    if l.len() == 0 || !valid_utf8(l) || m_hard(l[0] as int).is_none() { None } else {
        let hs = m_hard(l[0] as int)->Some_0;
        if !(hs <= l.len() && bnd(l, hs)) { None } else {
            let code = l.subrange(0, hs);
            if n_ty()(code) { match m_only(m_parse(l), n_ty()) { Some(m) if be_int(m.raw) <= i64::MAX => th_num(be_int(m.raw)), _ => None } }
            else if bx_code(code) { match m_only(m_parse(l), bx_ty()) { Some(m) => th_w(w_read(bx_str(m))), None => None } }
            else { None }
        }
    }
}
pub open spec fn th_arr(d: DV) -> Option<TV> {
    match d { DV::Arr(a) if a.len() > 0 => if forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Arr { th_w(d) } else { th_w(DV::Arr(seq![d])) }, _ => None }
}
pub open spec fn th_sith(d: DV) -> Option<TV> {
    match d {
        DV::Int(n) if i64::MIN <= n <= i64::MAX => th_num(n),
        DV::Str(s) => if seq![91u8].is_prefix_of(s) { match jparse(s) { Some(x) => th_arr(x), None => None } } else { match p_hexi(s) { Some(n) => th_num(n), None => None } },
        _ => th_arr(d),
    }
}
pub open spec fn th_opt(o: Option<DV>, r: Option<TV>, prev: Option<Option<TV>>) -> Option<Option<TV>> { if o.is_none() { prev } else { match (prev, r) { (Some(_), Some(v)) => Some(Some(v)), _ => None } } }
// every given source must be acceptable; the last one given counts
pub open spec fn th_new(t: Option<DV>, l: Option<Seq<u8>>, s: Option<DV>) -> Option<TV> {
    let l = match l { Some(x) if x.len() > 0 => Some(x), _ => None };
    if (t.is_some() && th_thold(t->Some_0).is_none()) || (l.is_some() && th_limen(l->Some_0).is_none()) || (s.is_some() && th_sith(s->Some_0).is_none()) { None }
    else if s.is_some() { th_sith(s->Some_0) } else if l.is_some() { th_limen(l->Some_0) } else if t.is_some() { th_thold(t->Some_0) } else { None }
}
pub open spec fn th_wf(v: TV) -> bool {
    if v.weighted { v.number.is_none() && v.bexter.is_some() && t_wf(v.bexter->Some_0, bx_ty()) && m_st(v.bexter->Some_0)
        && (match w_of(v.thold) { Some(cl) => cl.len() > 0 && v.size == w_tot(cl) && w_tot(cl) <= W_MAX && v.thold == w_dv(cl) && bx_given(seq![52u8, 65u8], w_txt(cl)) == v.bexter, None => false }) }
    else { v.bexter.is_none() && 0 <= v.size <= u32::MAX && v.thold == DV::Int(v.size) && v.number == Some(n_mv(v.size)) }
}
pub open spec fn th_limen_of(v: TV) -> Seq<u8> { if v.weighted { m_text(v.bexter->Some_0) } else { m_text(v.number->Some_0) } }
pub open spec fn th_sith_of(v: TV) -> DV { if v.weighted { if v.thold->Arr_0.len() == 1 { v.thold->Arr_0[0] } else { v.thold } } else { DV::Str(hex_digits(v.size as nat)) } }

// ---- satisfaction ------------------------------------------------------------------------------
pub open spec fn hit(idx: Seq<u32>, i: int) -> bool { exists|j: int| 0 <= j < idx.len() && #[trigger] idx[j] as int == i }
#[verifier::opaque]
pub open spec fn same_hits(a: Seq<u32>, b: Seq<u32>) -> bool { forall|i: int| #[trigger] hit(a, i) == hit(b, i) }
// which of the positions are present
#[verifier::opaque]
pub open spec fn sats_are(s: Seq<bool>, idx: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == hit(idx, i) }
// running sum of the weights at present positions
pub open spec fn w_part(c: Seq<Q>, off: int, idx: Seq<u32>) -> Option<Q> decreases c.len() {
    if c.len() == 0 { Some(q0()) } else { match w_part(c.drop_last(), off, idx) { Some(a) => if hit(idx, off + c.len() - 1) { q_addc(a, c.last()) } else { Some(a) }, None => None } }
}
// clause by clause: Some(false) at the first clause that is short, None at the first sum that does not fit
pub open spec fn w_sat(cl: Seq<Seq<Q>>, idx: Seq<u32>) -> Option<bool> decreases cl.len() {
    if cl.len() == 0 { Some(true) } else { match w_sat(cl.drop_last(), idx) { Some(true) => match w_part(cl.last(), w_tot(cl.drop_last()), idx) { Some(q) => Some(q.n >= q.d), None => None }, x => x } }
}
pub open spec fn th_sat(v: TV, idx: Seq<u32>) -> Option<bool> {
    if v.weighted { match w_of(v.thold) { Some(cl) => w_sat(cl, idx), None => None } } else { Some(v.size > 0 && idx.to_set().len() >= v.size) }
}

// the fields of a Tholder
pub open spec fn tv(t: crate::cesr::core::tholder::Tholder) -> TV {
    TV { weighted: t.weighted, thold: vw(t.thold), size: t.size as int, number: match t.number { Some(x) => Some(crate::cesr::core::matter::Matter::mv(&x)), None => None }, bexter: match t.bexter { Some(x) => Some(crate::cesr::core::matter::Matter::mv(&x)), None => None } }
}
// derived equality: field by field (of values, only the integers and texts matter here)
pub uninterp spec fn dv_eq(a: DV, b: DV) -> bool;
pub broadcast axiom fn ax_dv_eq(a: DV, b: DV) requires (a is Int && b is Int) || (a is Str && b is Str) ensures (#[trigger] dv_eq(a, b)) == (a == b);
pub uninterp spec fn mv_eq(a: MV, b: MV) -> bool;
pub open spec fn omv_eq(a: Option<MV>, b: Option<MV>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => mv_eq(x, y), _ => false } }
pub open spec fn tv_eq(a: TV, b: TV) -> bool { a.weighted == b.weighted && a.size == b.size && dv_eq(a.thold, b.thold) && omv_eq(a.number, b.number) && omv_eq(a.bexter, b.bexter) }

// ---- fractions -----------------------------------------------------------------------------------
pub proof fn l_gcd(a: int, b: int)
    requires a >= 0, b >= 0, a + b > 0
    ensures gcd(a, b) > 0, a % gcd(a, b) == 0, b % gcd(a, b) == 0, a > 0 ==> gcd(a, b) <= a, b > 0 ==> gcd(a, b) <= b
    decreases b
{
    if b == 0 { assert(a % a == 0) by (nonlinear_arith) requires a > 0; }
    else {
        l_gcd(b, a % b); let g = gcd(a, b); let x = b / g; let y = (a % b) / g; let k = a / b;
        assert(b == g * x && a % b == g * y) by (nonlinear_arith) requires g > 0, x == b / g, y == (a % b) / g, b % g == 0, (a % b) % g == 0;
        assert(a == b * k + a % b) by (nonlinear_arith) requires k == a / b, b > 0;
        assert(a == g * (x * k + y)) by (nonlinear_arith) requires a == b * k + a % b, b == g * x, a % b == g * y;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x * k + y, g); assert(a == (x * k + y) * g) by (nonlinear_arith) requires a == g * (x * k + y);
        if a > 0 { assert(g <= a) by (nonlinear_arith) requires a == g * (x * k + y), a > 0, g > 0; }
    }
}
pub proof fn l_gcd_mul(g: int, a: int, b: int)
    requires g > 0, a >= 0, b >= 0
    ensures gcd(g * a, g * b) == g * gcd(a, b)
    decreases b
{
    assert(g * b >= 0) by (nonlinear_arith) requires g > 0, b >= 0;
    if b == 0 { assert(g * b == 0) by (nonlinear_arith) requires b == 0; }
    else {
        assert(g * b > 0) by (nonlinear_arith) requires g > 0, b > 0;
        l_gcd_mul(g, b, a % b);
        vstd::arithmetic::div_mod::lemma_truncate_middle(a, g, b);
        assert((g * a) % (g * b) == g * (a % b));
    }
}
// reducing keeps the value, is reduced, and is smaller
pub proof fn l_red(n: int, d: int)
    requires n >= 0, d > 0
    ensures ({ let q = red(n, d); q.n >= 0 && q.d > 0 && q.n <= n && q.d <= d && q.n * d == n * q.d && red(q.n, q.d) == q && (n <= d ==> q.n <= q.d) && (n >= d ==> q.n >= q.d) && (n == 0 ==> q == q0()) })
{
    let g = gcd(n, d); l_gcd(n, d); let x = n / g; let y = d / g;
    assert(n == g * x && d == g * y) by (nonlinear_arith) requires g > 0, x == n / g, y == d / g, n % g == 0, d % g == 0;
    assert(x >= 0) by (nonlinear_arith) requires n == g * x, n >= 0, g > 0;
    assert(y > 0) by (nonlinear_arith) requires d == g * y, d > 0, g > 0;
    assert(x <= n && y <= d) by (nonlinear_arith) requires n == g * x, d == g * y, g > 0, x >= 0, y > 0;
    assert(x * d == n * y) by (nonlinear_arith) requires n == g * x, d == g * y;
    assert(n <= d ==> x <= y) by (nonlinear_arith) requires n == g * x, d == g * y, g > 0;
    assert(n >= d ==> x >= y) by (nonlinear_arith) requires n == g * x, d == g * y, g > 0;
    l_gcd_mul(g, x, y);
    assert(gcd(x, y) == 1) by (nonlinear_arith) requires g == g * gcd(x, y), g > 0;
    if n == 0 { assert(gcd(0, d) == d) by { reveal_with_fuel(gcd, 3); assert(0int % d == 0) by (nonlinear_arith) requires d > 0; } assert(x == 0); assert(y == 1) by (nonlinear_arith) requires y == d / d, d > 0; }
}
pub proof fn l_red_one() ensures red(0, 1) == q0(), red(1, 1) == (Q { n: 1, d: 1 }), q_ok(q0()) { assert(gcd(0, 1) == 1) by (compute); assert(gcd(1, 1) == 1) by (compute); }
pub proof fn l_q_addc(a: Q, b: Q)
    requires q_ok(a), q_ok(b)
    ensures 0 <= a.n * b.d <= 0x3fff_ffff_ffff_ffff, 0 <= b.n * a.d <= 0x3fff_ffff_ffff_ffff, 0 < a.d * b.d <= 0x3fff_ffff_ffff_ffff,
        ({ let r = red(a.n * b.d + b.n * a.d, a.d * b.d); 0 <= r.n <= a.n * b.d + b.n * a.d && 0 < r.d <= a.d * b.d && red(r.n, r.d) == r }),
        q_addc(a, b).is_some() ==> q_ok(q_addc(a, b)->Some_0)
{
    assert(0 <= a.n * b.d <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= a.n <= 0x7fff_ffff, 0 < b.d <= 0x7fff_ffff;
    assert(0 <= b.n * a.d <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 <= b.n <= 0x7fff_ffff, 0 < a.d <= 0x7fff_ffff;
    assert(0 < a.d * b.d <= 0x7fff_ffff * 0x7fff_ffff) by (nonlinear_arith) requires 0 < a.d <= 0x7fff_ffff, 0 < b.d <= 0x7fff_ffff;
    l_red(a.n * b.d + b.n * a.d, a.d * b.d);
}
pub proof fn l_w_one(t: Seq<u8>)
    ensures w_one(t).is_some() ==> q_ok(w_one(t)->Some_0) && w_one(t)->Some_0.n <= w_one(t)->Some_0.d
{
    l_red_one(); let p = split_at(t, 47);
    if p.len() == 2 { match (p_i32(p[0]), p_i32(p[1])) { (Some(n), Some(d)) => if 0 <= n <= d && d > 0 { l_red(n, d); l_p_i32(p[1]); } else { }, _ => { } } }
}
pub proof fn l_p_i32(s: Seq<u8>) ensures p_i32(s).is_some() ==> i32::MIN <= p_i32(s)->Some_0 <= i32::MAX
{ if s.len() > 0 { l_dec_val_nn(s.skip(1)); } l_dec_val_nn(s); }
pub open spec fn qs_ok(c: Seq<Q>) -> bool { forall|i: int| 0 <= i < c.len() ==> q_ok(#[trigger] c[i]) && c[i].n <= c[i].d }
pub proof fn l_w_clause(c: DV) requires w_clause_ok(c) ensures qs_ok(w_clause(c))
{ assert forall|i: int| 0 <= i < w_clause(c).len() implies q_ok(#[trigger] w_clause(c)[i]) && w_clause(c)[i].n <= w_clause(c)[i].d by { match c->Arr_0[i] { DV::Str(t) => { l_w_one(t); assert(w_w(c->Arr_0[i]).is_some()); } _ => { assert(w_w(c->Arr_0[i]).is_some()); } } } }
pub proof fn l_w_sum(c: Seq<Q>) requires qs_ok(c) ensures w_sum(c).is_some() ==> q_ok(w_sum(c)->Some_0) decreases c.len()
{ l_red_one(); if c.len() > 0 { assert(qs_ok(c.drop_last())) by { assert forall|i: int| 0 <= i < c.len() - 1 implies q_ok(#[trigger] c.drop_last()[i]) && c.drop_last()[i].n <= c.drop_last()[i].d by { assert(c.drop_last()[i] == c[i]); } } l_w_sum(c.drop_last()); assert(q_ok(c[c.len() - 1])); if w_sum(c.drop_last()).is_some() { l_q_addc(w_sum(c.drop_last())->Some_0, c.last()); } } }
// a failed partial sum stays failed
pub proof fn l_sum_none(c: Seq<Q>, k: int) requires 0 <= k <= c.len(), w_sum(c.take(k)).is_none() ensures w_sum(c).is_none() decreases c.len() - k
{ if k == c.len() { assert(c.take(k) =~= c); } else { assert(c.take(k + 1).drop_last() =~= c.take(k)); l_sum_none(c, k + 1); } }
pub open spec fn rq(v: Seq<Rational32>) -> Seq<Q> { Seq::new(v.len(), |i: int| v[i].q()) }
pub open spec fn rqq(v: Seq<Vec<Rational32>>) -> Seq<Seq<Q>> { Seq::new(v.len(), |i: int| rq(v[i]@)) }
pub proof fn l_split_len(s: Seq<u8>, c: int) ensures split_at(s, c).len() >= 1 decreases s.len() { if s.len() > 0 { l_split_len(s.drop_last(), c); } }
// ---- sorting and removing repeats leaves the set of indices ----------------------------------------
pub proof fn l_dedup(s: Seq<u32>)
    requires sorted_u32(s)
    ensures ({ let t = dedup(s); (forall|i: int, j: int| 0 <= i < j < t.len() ==> #[trigger] t[i] < #[trigger] t[j]) && (s.len() > 0 ==> t.len() > 0 && t.last() == s.last()) && t.len() <= s.len() && t.to_set() =~= s.to_set() })
    decreases s.len()
{
    let t = dedup(s);
    if s.len() >= 2 {
        let p = s.drop_last();
        assert(sorted_u32(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] <= #[trigger] p[j] by { assert(s[i] <= s[j]); } }
        l_dedup(p); let u = dedup(p);
        assert(p.to_set().insert(s.last()) =~= s.to_set()) by {
            assert forall|x: u32| s.to_set().contains(x) implies p.to_set().insert(s.last()).contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < p.len() { assert(p[i] == x); } }
            assert forall|x: u32| p.to_set().insert(s.last()).contains(x) implies s.to_set().contains(x) by { if p.to_set().contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); } else { assert(s[s.len() - 1] == x); } }
        }
        if s[s.len() - 1] == s[s.len() - 2] { assert(p.last() == s.last()); assert(p.to_set().contains(s.last())) by { assert(p[p.len() - 1] == s.last()); } assert(p.to_set().insert(s.last()) =~= p.to_set()); }
        else {
            assert(s[s.len() - 2] < s[s.len() - 1]);
            assert(u.to_set().insert(s.last()) =~= t.to_set()) by {
                assert forall|x: u32| t.to_set().contains(x) implies u.to_set().insert(s.last()).contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < u.len() { assert(u[i] == x); } }
                assert forall|x: u32| u.to_set().insert(s.last()).contains(x) implies t.to_set().contains(x) by { if u.to_set().contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(t[i] == x); } else { assert(t[t.len() - 1] == x); } }
            }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { if j < u.len() { assert(u[i] < u[j]); } else { assert(t[i] == u[i]); if i < u.len() - 1 { assert(u[i] < u[u.len() - 1]); } } }
        }
    }
}
pub proof fn l_indices(a: Seq<u32>, b: Seq<u32>)
    requires sorted_u32(b), b.to_multiset() == a.to_multiset()
    ensures dedup(b).to_set() =~= a.to_set(), dedup(b).len() == a.to_set().len(), same_hits(dedup(b), a)
{ reveal(same_hits);
    let t = dedup(b); l_dedup(b);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: u32| a.to_set().contains(x) == b.to_set().contains(x) by { assert(a.contains(x) == (a.to_multiset().count(x) > 0)); assert(b.contains(x) == (b.to_multiset().count(x) > 0)); }
    assert(a.to_set() =~= b.to_set());
    assert(t.no_duplicates()); t.unique_seq_to_set();
    assert forall|i: int| #[trigger] hit(t, i) == hit(a, i) by {
        if hit(t, i) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] as int == i; assert(t.to_set().contains(t[j])); assert(a.contains(t[j])); }
        if hit(a, i) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] as int == i; assert(a.to_set().contains(a[j])); assert(t.contains(a[j])); }
    }
}
pub proof fn l_w_of(d: DV)
    ensures w_of(d).is_some() ==> w_of(d) == Some(w_all(d)) && (forall|i: int| 0 <= i < w_all(d).len() ==> qs_ok(#[trigger] w_all(d)[i]) && w_all(d)[i].len() > 0)
{
    if w_of(d).is_some() { assert forall|i: int| 0 <= i < w_all(d).len() implies qs_ok(#[trigger] w_all(d)[i]) && w_all(d)[i].len() > 0 by { assert(w_clause_ok(d->Arr_0[i])); l_w_clause(d->Arr_0[i]); assert(w_full(w_all(d)[i])); } }
}
pub proof fn l_part_none(c: Seq<Q>, off: int, idx: Seq<u32>, k: int) requires 0 <= k <= c.len(), w_part(c.take(k), off, idx).is_none() ensures w_part(c, off, idx).is_none() decreases c.len() - k
{ if k == c.len() { assert(c.take(k) =~= c); } else { assert(c.take(k + 1).drop_last() =~= c.take(k)); l_part_none(c, off, idx, k + 1); } }
pub proof fn l_sat_stop(cl: Seq<Seq<Q>>, idx: Seq<u32>, k: int) requires 0 <= k <= cl.len(), w_sat(cl.take(k), idx) != Some(true) ensures w_sat(cl, idx) == w_sat(cl.take(k), idx) decreases cl.len() - k
{ if k == cl.len() { assert(cl.take(k) =~= cl); } else { assert(cl.take(k + 1).drop_last() =~= cl.take(k)); l_sat_stop(cl, idx, k + 1); } }
pub proof fn l_tot_mono(cl: Seq<Seq<Q>>, k: int) requires 0 <= k <= cl.len() ensures 0 <= w_tot(cl.take(k)) <= w_tot(cl), k < cl.len() ==> w_tot(cl.take(k)) + cl[k].len() <= w_tot(cl) decreases cl.len() - k
{ l_tot_nn(cl.take(k)); if k == cl.len() { assert(cl.take(k) =~= cl); } else { assert(cl.take(k + 1).drop_last() =~= cl.take(k)); l_tot_mono(cl, k + 1); } }
pub proof fn l_tot_nn(cl: Seq<Seq<Q>>) ensures w_tot(cl) >= 0 decreases cl.len() { if cl.len() > 0 { l_tot_nn(cl.drop_last()); } }

pub proof fn l_sats_start(n: int) ensures sats_are(rept(false, n), Seq::<u32>::empty()) { reveal(sats_are); }
pub proof fn l_sats_step(s: Seq<bool>, t: Seq<bool>, idx: Seq<u32>, k: int)
    requires sats_are(s, idx.take(k)), 0 <= k < idx.len(), t == (if (idx[k] as int) < s.len() { s.update(idx[k] as int, true) } else { s })
    ensures sats_are(t, idx.take(k + 1))
{
    reveal(sats_are); let p = idx.take(k); let q = idx.take(k + 1);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == hit(q, i) by {
        assert(s[i] == hit(p, i));
        if hit(p, i) { let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] as int == i; assert(q[j] as int == i); }
        if hit(q, i) { let j = choose|j: int| 0 <= j < q.len() && #[trigger] q[j] as int == i; if j < p.len() { assert(p[j] as int == i); } }
        assert(q[k] == idx[k]);
    }
}
pub proof fn l_sats_at(s: Seq<bool>, a: Seq<u32>, idx: Seq<u32>) requires sats_are(s, a), same_hits(a, idx) ensures sats_are(s, idx) { reveal(sats_are); reveal(same_hits); }
pub proof fn l_sats_get(s: Seq<bool>, idx: Seq<u32>, i: int) requires sats_are(s, idx), 0 <= i < s.len() ensures s[i] == hit(idx, i) { reveal(sats_are); }
// ---- decimal text ----------------------------------------------------------------------------------
pub proof fn l_dec(n: nat)
    ensures all_dig(dec_digits(n)), dec_val(dec_digits(n)) == n, n < 10_000_000_000 ==> dec_digits(n).len() <= 10
    decreases n
{
    l_dec_(n, 10);
}
proof fn l_dec_(n: nat, k: nat)
    ensures all_dig(dec_digits(n)), dec_val(dec_digits(n)) == n, k >= 1 && n < vpow(10, k) ==> dec_digits(n).len() <= k, k == 10 ==> vpow(10, k) == 10_000_000_000
    decreases n
{
    reveal_with_fuel(vpow, 12); let h = dec_digits(n);
    if n < 10 { reveal_with_fuel(dec_val, 2); assert(h.drop_last() =~= Seq::empty()); }
    else { let kk = if k > 0 { (k - 1) as nat } else { 0 }; l_dec_(n / 10, kk); assert(h.drop_last() =~= dec_digits(n / 10));
        assert forall|i: int| 0 <= i < h.len() implies 48 <= #[trigger] h[i] <= 57 by { if i < h.len() - 1 { assert(h[i] == dec_digits(n / 10)[i]); } }
        if k >= 1 && n < vpow(10, k) { if kk == 0 { assert(vpow(10, 1) == 10 * vpow(10, 0)); } else { assert(vpow(10, k) == 10 * vpow(10, kk)); } } }
}
// ---- splitting what was joined -----------------------------------------------------------------------
pub open spec fn free(s: Seq<u8>, c: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub open spec fn all_free(a: Seq<Seq<u8>>, c: int) -> bool { forall|i: int| 0 <= i < a.len() ==> free(#[trigger] a[i], c) }
pub proof fn l_split_app(s: Seq<u8>, t: Seq<u8>, c: int)
    requires free(t, c)
    ensures split_at(s + t, c) == split_at(s, c).drop_last().push(split_at(s, c).last() + t)
    decreases t.len()
{
    l_split_len(s, c); let p = split_at(s, c);
    if t.len() == 0 { assert(s + t =~= s); assert(p.last() + t =~= p.last()); assert(p =~= p.drop_last().push(p.last())); }
    else {
        let u = t.drop_last(); assert(free(u, c)) by { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != c by { assert(t[i] != c); } }
        l_split_app(s, u, c); assert((s + t).drop_last() =~= s + u); assert((s + t).last() == t[t.len() - 1]);
        let r = split_at(s + u, c); assert(r.drop_last() =~= p.drop_last()); assert(r.last() == p.last() + u); assert((p.last() + u).push(t.last()) =~= p.last() + t);
    }
}
pub proof fn l_split_joined(a: Seq<Seq<u8>>, c: u8)
    requires a.len() > 0, all_free(a, c as int)
    ensures split_at(joined(a, seq![c]), c as int) == a
    decreases a.len()
{
    let l = a.last(); assert(free(a[a.len() - 1], c as int));
    if a.len() == 1 { l_split_app(Seq::empty(), l, c as int); assert(Seq::empty() + l =~= l); reveal_with_fuel(split_at, 2); assert(split_at(l, c as int) =~= a); }
    else {
        let p = a.drop_last(); assert(all_free(p, c as int)) by { assert forall|i: int| 0 <= i < p.len() implies free(#[trigger] p[i], c as int) by { assert(free(a[i], c as int)); } }
        l_split_joined(p, c); let s = joined(p, seq![c]) + seq![c];
        assert(s.drop_last() =~= joined(p, seq![c])); assert(s.last() == c);
        assert(split_at(s, c as int) == p.push(Seq::empty()));
        l_split_app(s, l, c as int);
        assert(p.push(Seq::empty()).drop_last() =~= p); assert(Seq::<u8>::empty() + l =~= l); assert(p.push(l) =~= a);
    }
}
// ---- the text of weights -----------------------------------------------------------------------------
pub open spec fn w_char(c: u8) -> bool { 48 <= c <= 57 || c == 115 }
pub open spec fn w_chars(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> w_char(#[trigger] s[i]) }
pub proof fn l_q_txt(q: Q)
    requires q_ok(q)
    ensures 1 <= q_txt(q).len() <= 21, w_chars(q_txt(q)), repl(q_txt(q), 115, 47) == q_str(q), free(q_str(q), 97), free(q_str(q), 99), q_txt(q)[0] <= 57
{
    l_dec(q.n as nat); l_dec(q.d as nat); let t = q_txt(q); let a = dec_digits(q.n as nat); let b = dec_digits(q.d as nat);
    assert forall|i: int| 0 <= i < t.len() implies w_char(#[trigger] t[i]) by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } }
    assert(t[0] == a[0]);
    assert(repl(t, 115, 47) =~= q_str(q)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] repl(t, 115, 47)[i] == q_str(q)[i] by { if i < a.len() { assert(t[i] == a[i]); } else if i > a.len() { assert(t[i] == b[i - a.len() - 1]); } } }
    let u = q_str(q); assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] <= 57 by { if i < a.len() { assert(u[i] == a[i]); } else if i > a.len() { assert(u[i] == b[i - a.len() - 1]); } }
}
pub proof fn l_p_dec(n: int) requires 0 <= n <= i32::MAX ensures p_i32(dec_digits(n as nat)) == Some(n) { l_dec(n as nat); let t = dec_digits(n as nat); assert(48 <= t[0] <= 57); }
pub proof fn l_dig_free(s: Seq<u8>) requires all_dig(s) ensures free(s, 47) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 47 by {} }
// a weight's text reads as the weight
pub proof fn l_w_rt(q: Q)
    requires q_ok(q), q.n <= q.d
    ensures w_one(q_str(q)) == Some(q)
{
    let a = dec_digits(q.n as nat); let b = dec_digits(q.d as nat); l_dec(q.n as nat); l_dec(q.d as nat); l_red_one(); l_dig_free(a); l_dig_free(b);
    if q.d == 1 {
        l_split_joined(seq![a], 47u8); assert(joined(seq![a], seq![47u8]) == a);
        assert(split_at(q_str(q), 47) == seq![a]);
        if q.n == 0 { assert(a == seq![48u8]); } else { assert(q.n == 1); assert(a == seq![49u8]); assert(seq![49u8][0] != seq![48u8][0]); assert(a != seq![48u8]); }
    } else {
        let p = seq![a, b]; l_split_joined(p, 47u8);
        reveal_with_fuel(joined, 3); assert(p.drop_last() =~= seq![a]); assert(joined(p, seq![47u8]) == a + seq![47u8] + b);
        assert(split_at(q_str(q), 47) == p); assert(p[0] == a && p[1] == b);
        l_p_dec(q.n); l_p_dec(q.d);
    }
}
pub proof fn l_w_dv(cl: Seq<Seq<Q>>)
    requires forall|i: int| 0 <= i < cl.len() ==> qs_ok(#[trigger] cl[i]) && w_full(cl[i])
    ensures w_of(w_dv(cl)) == Some(cl)
{
    let d = w_dv(cl); let a = d->Arr_0;
    assert forall|i: int| 0 <= i < a.len() implies w_clause_ok(#[trigger] a[i]) && w_clause(a[i]) == cl[i] by {
        let c = cl[i]; assert(qs_ok(c)); let x = a[i]->Arr_0;
        assert forall|j: int| 0 <= j < x.len() implies w_w(#[trigger] x[j]) == Some(c[j]) by { assert(q_ok(c[j])); l_w_rt(c[j]); }
        assert(w_clause(a[i]) =~= c);
    }
    assert(w_all(d) =~= cl);
}
// ---- sizes ---------------------------------------------------------------------------------------------
pub proof fn l_cnt_nn(a: Seq<DV>) ensures w_cnt(a) >= a.len() decreases a.len() { if a.len() > 0 { l_cnt_nn(a.drop_last()); } }
pub proof fn l_tot_cnt(a: Seq<DV>, cl: Seq<Seq<Q>>)
    requires a.len() == cl.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Arr && a[i]->Arr_0.len() == cl[i].len()
    ensures w_tot(cl) <= w_cnt(a)
    decreases a.len()
{
    if a.len() > 0 { let p = a.drop_last(); let q = cl.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) is Arr && p[i]->Arr_0.len() == q[i].len() by { assert(a[i] is Arr); }
        l_tot_cnt(p, q); assert(a[a.len() - 1] is Arr && a[a.len() - 1]->Arr_0.len() == cl[cl.len() - 1].len()); }
}
pub open spec fn tl(a: Seq<Seq<u8>>) -> int decreases a.len() { if a.len() == 0 { 0 } else { tl(a.drop_last()) + a.last().len() + 1 } }
pub proof fn l_tl_split(s: Seq<u8>, c: int) ensures tl(split_at(s, c)) == s.len() + 1, split_at(s, c).len() >= 1 decreases s.len()
{
    if s.len() == 0 { reveal_with_fuel(tl, 2); assert(split_at(s, c).drop_last() =~= Seq::empty()); }
    else { l_tl_split(s.drop_last(), c); let r = split_at(s.drop_last(), c); let x = split_at(s, c); if s.last() == c { assert(x.drop_last() =~= r); } else { assert(x.drop_last() =~= r.drop_last()); assert(x.last().len() == r.last().len() + 1); } }
}
pub proof fn l_tl_len(a: Seq<Seq<u8>>) ensures a.len() <= tl(a) decreases a.len() { if a.len() > 0 { l_tl_len(a.drop_last()); } }
pub proof fn l_read_cnt(t: Seq<u8>)
    ensures w_read(t) is Arr, w_cnt(w_read(t)->Arr_0) <= t.len() + 1
{
    let p = split_at(repl(t, 115, 47), 97); l_tl_split(repl(t, 115, 47), 97); l_rc(p, w_read(t)->Arr_0);
}
proof fn l_rc(p: Seq<Seq<u8>>, a: Seq<DV>)
    requires a.len() == p.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == w_rclause(p[i])
    ensures w_cnt(a) <= tl(p)
    decreases p.len()
{
    if p.len() > 0 { assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] a.drop_last()[i] == w_rclause(p.drop_last()[i]) by { assert(a[i] == w_rclause(p[i])); }
        l_rc(p.drop_last(), a.drop_last()); l_tl_split(p.last(), 99); l_tl_len(split_at(p.last(), 99)); assert(a[a.len() - 1] == w_rclause(p[p.len() - 1])); }
}
pub proof fn l_ctxt_len(c: Seq<Q>)
    requires qs_ok(c)
    ensures w_ctxt(c).len() <= 22 * c.len(), c.len() > 0 ==> w_ctxt(c).len() >= 1
    decreases c.len()
{
    if c.len() > 0 {
        let p = c.drop_last(); assert(qs_ok(p)) by { assert forall|i: int| 0 <= i < p.len() implies q_ok(#[trigger] p[i]) && p[i].n <= p[i].d by { assert(p[i] == c[i]); } }
        l_ctxt_len(p); assert(w_ctxts(c).drop_last() =~= w_ctxts(p)); assert(q_ok(c[c.len() - 1])); l_q_txt(c.last()); assert(w_ctxts(c).last() == q_txt(c.last()));
    }
}
pub open spec fn cl_ok(cl: Seq<Seq<Q>>) -> bool { forall|i: int| 0 <= i < cl.len() ==> qs_ok(#[trigger] cl[i]) && cl[i].len() > 0 }
pub proof fn l_txt_len(cl: Seq<Seq<Q>>)
    requires cl_ok(cl)
    ensures w_txt(cl).len() <= 23 * w_tot(cl), w_tot(cl) >= cl.len()
    decreases cl.len()
{
    if cl.len() > 0 {
        let p = cl.drop_last(); assert(cl_ok(p)) by { assert forall|i: int| 0 <= i < p.len() implies qs_ok(#[trigger] p[i]) && p[i].len() > 0 by { assert(p[i] == cl[i]); } }
        l_txt_len(p); assert(w_txts(cl).drop_last() =~= w_txts(p)); assert(qs_ok(cl[cl.len() - 1])); l_ctxt_len(cl.last()); assert(w_txts(cl).last() == w_ctxt(cl.last()));
    }
}
pub proof fn l_bx_raw_len(code: Seq<u8>, s: Seq<u8>)
    ensures bx_given(code, s).is_some() ==> bx_given(code, s)->Some_0.raw.len() <= s.len() + 3
{
    if all_b64(s) { l_bx_paw(s); }
}
pub proof fn l_th_w(d: DV)
    requires w_fits(d)
    ensures th_w(d).is_some() ==> th_wf(th_w(d)->Some_0) && th_w(d)->Some_0.weighted, w_of(d).is_some() ==> w_tot(w_of(d)->Some_0) <= W_MAX && w_txt(w_of(d)->Some_0).len() < MAXLEN && cl_ok(w_of(d)->Some_0)
{
    l_w_of(d);
    if w_of(d).is_some() {
        let cl = w_of(d)->Some_0; let a = d->Arr_0;
        assert(cl_ok(cl));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) is Arr && a[i]->Arr_0.len() == cl[i].len() by { assert(w_clause_ok(a[i])); }
        l_tot_cnt(a, cl); l_txt_len(cl);
        assert forall|i: int| 0 <= i < cl.len() implies qs_ok(#[trigger] cl[i]) && w_full(cl[i]) by {}
        l_w_dv(cl); l_bx_given(seq![52u8, 65u8], w_txt(cl)); l_bx_raw_len(seq![52u8, 65u8], w_txt(cl));
    }
}
pub open spec fn odv(o: Option<&crate::data::Value>) -> Option<DV> { match o { Some(v) => Some(vw(*v)), None => None } }
pub proof fn l_th_num(n: int) ensures th_num(n).is_some() ==> th_wf(th_num(n)->Some_0) {}
pub proof fn l_th_thold(d: DV) requires w_fits(d) ensures th_thold(d).is_some() ==> th_wf(th_thold(d)->Some_0) { l_th_w(d); }
pub proof fn l_th_arr(d: DV) requires w_fits(d) ensures th_arr(d).is_some() ==> th_wf(th_arr(d)->Some_0), d is Arr ==> w_fits(DV::Arr(seq![d]))
{
    l_th_w(d);
    if d is Arr { let a = d->Arr_0; let w = seq![d]; l_cnt_nn(a); reveal_with_fuel(w_cnt, 2); assert(w.drop_last() =~= Seq::empty()); assert(w.last() == d); l_th_w(DV::Arr(w)); }
}
pub proof fn l_th_sith(d: DV) requires th_fits(d) ensures th_sith(d).is_some() ==> th_wf(th_sith(d)->Some_0)
{ match d { DV::Str(s) => { if jparse(s).is_some() { l_th_arr(jparse(s)->Some_0); } } _ => { l_th_arr(d); } } }
pub proof fn l_limen(l: Seq<u8>)
    requires l.len() <= 0x0200_0000
    ensures th_limen(l).is_some() ==> th_wf(th_limen(l)->Some_0),
        m_parse(l).is_some() ==> m_wf(m_parse(l)->Some_0) && m_st(m_parse(l)->Some_0),
        m_only(m_parse(l), bx_ty()).is_some() ==> ({ let t = bx_str(m_parse(l)->Some_0); t.len() < W_MAX && w_fits(w_read(t)) }),
{
    if m_parse(l).is_some() {
        thm_m_text_canonical(l); let m = m_parse(l)->Some_0; l_m_both(m); l_msz(m.code);
        assert(m.raw.len() <= l.len());
        if bx_ty()(m.code) { l_bx_wf(m); let t = bx_str(m); l_read_cnt(t); l_th_w(w_read(t)); }
    }
}
pub proof fn l_th_arr_w(e: DV, a: Seq<crate::data::Value>, all: bool)
    requires e is Arr, vws(a) == e->Arr_0, a.len() > 0, all == (forall|i: int| 0 <= i < a.len() ==> vw(#[trigger] a[i]) is Arr)
    ensures th_arr(e) == th_w(if all { e } else { DV::Arr(seq![e]) })
{
    let x = e->Arr_0; assert forall|i: int| 0 <= i < a.len() implies vw(#[trigger] a[i]) == x[i] by {}
    if all { assert forall|i: int| 0 <= i < x.len() implies (#[trigger] x[i]) is Arr by { assert(vw(a[i]) is Arr); } }
    else { let i = choose|i: int| 0 <= i < a.len() && !(vw(#[trigger] a[i]) is Arr); assert(!(x[i] is Arr)); }
}
pub proof fn l_w_bad(d: DV, i: int) requires d is Arr, 0 <= i < d->Arr_0.len(), !(d->Arr_0[i] is Arr) ensures w_of(d).is_none() { assert(!w_clause_ok(d->Arr_0[i])); }
pub proof fn l_w_bad2(d: DV, i: int, j: int) requires d is Arr, 0 <= i < d->Arr_0.len(), d->Arr_0[i] is Arr, 0 <= j < d->Arr_0[i]->Arr_0.len(), !(d->Arr_0[i]->Arr_0[j] is Str) ensures w_of(d).is_none() { assert(w_w(d->Arr_0[i]->Arr_0[j]).is_none()); assert(!w_clause_ok(d->Arr_0[i])); }
// ---- satisfaction is exact ------------------------------------------------------------------------------
// the exact sum of the weights at present positions, as an unreduced fraction
pub open spec fn x_add(a: Q, b: Q) -> Q { Q { n: a.n * b.d + b.n * a.d, d: a.d * b.d } }
pub open spec fn x_sum(c: Seq<Q>, off: int, idx: Seq<u32>) -> Q decreases c.len() {
    if c.len() == 0 { q0() } else { let a = x_sum(c.drop_last(), off, idx); if hit(idx, off + c.len() - 1) { x_add(a, c.last()) } else { a } }
}
// the exact sum is at least one
pub open spec fn x_met(c: Seq<Q>, off: int, idx: Seq<u32>) -> bool { x_sum(c, off, idx).n >= x_sum(c, off, idx).d }
pub open spec fn same_value(a: Q, b: Q) -> bool { a.n * b.d == b.n * a.d }
proof fn l_x_step(a: Q, x: Q, w: Q)
    requires q_ok(a), q_ok(w), x.d > 0, x.n >= 0, same_value(a, x)
    ensures ({ let y = x_add(x, w); y.d > 0 && y.n >= 0 && same_value(red(x_add(a, w).n, x_add(a, w).d), y) })
{
    let s = x_add(a, w); let y = x_add(x, w); l_q_addc(a, w); l_red(s.n, s.d); let q = red(s.n, s.d);
    assert(y.d > 0) by (nonlinear_arith) requires y.d == x.d * w.d, x.d > 0, w.d > 0;
    assert(y.n >= 0) by (nonlinear_arith) requires y.n == x.n * w.d + w.n * x.d, x.d > 0, w.d > 0, x.n >= 0, w.n >= 0;
    assert(s.n * x.d == a.d * y.n) by (nonlinear_arith) requires s.n == a.n * w.d + w.n * a.d, y.n == x.n * w.d + w.n * x.d, a.n * x.d == x.n * a.d;
    assert(s.d * x.d == a.d * y.d) by (nonlinear_arith) requires s.d == a.d * w.d, y.d == x.d * w.d;
    assert(q.n * s.d * x.d == s.n * q.d * x.d) by (nonlinear_arith) requires q.n * s.d == s.n * q.d;
    assert(q.n * (s.d * x.d) == (s.n * x.d) * q.d) by (nonlinear_arith) requires q.n * s.d * x.d == s.n * q.d * x.d;
    assert(a.d * (q.n * y.d) == a.d * (y.n * q.d)) by (nonlinear_arith) requires q.n * (a.d * y.d) == (a.d * y.n) * q.d;
    assert(q.n * y.d == y.n * q.d) by (nonlinear_arith) requires a.d * (q.n * y.d) == a.d * (y.n * q.d), a.d > 0;
}
pub proof fn l_x_part(c: Seq<Q>, off: int, idx: Seq<u32>)
    requires qs_ok(c)
    ensures w_part(c, off, idx).is_some() ==> q_ok(w_part(c, off, idx)->Some_0) && same_value(w_part(c, off, idx)->Some_0, x_sum(c, off, idx)) && x_sum(c, off, idx).d > 0 && x_sum(c, off, idx).n >= 0,
        w_part(c, off, idx).is_some() ==> (w_part(c, off, idx)->Some_0.n >= w_part(c, off, idx)->Some_0.d) == x_met(c, off, idx)
    decreases c.len()
{
    l_red_one();
    if c.len() > 0 {
        let p = c.drop_last(); assert(qs_ok(p)) by { assert forall|i: int| 0 <= i < p.len() implies q_ok(#[trigger] p[i]) && p[i].n <= p[i].d by { assert(p[i] == c[i]); } }
        l_x_part(p, off, idx); assert(q_ok(c[c.len() - 1])); let w = c.last();
        if w_part(c, off, idx).is_some() && hit(idx, off + c.len() - 1) { let a = w_part(p, off, idx)->Some_0; l_x_step(a, x_sum(p, off, idx), w); l_q_addc(a, w); }
    }
    if w_part(c, off, idx).is_some() { let q = w_part(c, off, idx)->Some_0; let x = x_sum(c, off, idx);
        assert(same_value(q, x));
        assert((q.n >= q.d) == (x.n >= x.d)) by (nonlinear_arith) requires q.n * x.d == x.n * q.d, q.d > 0, x.d > 0; }
}
// P: satisfied only when every clause's exact sum is at least one, refused only when some clause's is less
pub proof fn l_x_sat(cl: Seq<Seq<Q>>, idx: Seq<u32>)
    requires cl_ok(cl)
    ensures w_sat(cl, idx) == Some(true) ==> (forall|i: int| 0 <= i < cl.len() ==> #[trigger] x_met(cl[i], w_tot(cl.take(i)), idx)),
        w_sat(cl, idx) == Some(false) ==> (exists|i: int| 0 <= i < cl.len() && !#[trigger] x_met(cl[i], w_tot(cl.take(i)), idx))
    decreases cl.len()
{
    if cl.len() > 0 {
        let p = cl.drop_last(); let n = cl.len() - 1; assert(cl_ok(p)) by { assert forall|i: int| 0 <= i < p.len() implies qs_ok(#[trigger] p[i]) && p[i].len() > 0 by { assert(p[i] == cl[i]); } }
        l_x_sat(p, idx); assert(qs_ok(cl[n])); l_x_part(cl[n], w_tot(p), idx); assert(cl.take(n) =~= p);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] p.take(i) == cl.take(i) by { assert(p.take(i) =~= cl.take(i)); }
        if w_sat(cl, idx) == Some(true) { assert forall|i: int| 0 <= i < cl.len() implies #[trigger] x_met(cl[i], w_tot(cl.take(i)), idx) by { if i < n { assert(p.take(i) == cl.take(i)); assert(x_met(p[i], w_tot(p.take(i)), idx)); } } }
        if w_sat(cl, idx) == Some(false) {
            if w_sat(p, idx) == Some(false) { let i = choose|i: int| 0 <= i < p.len() && !#[trigger] x_met(p[i], w_tot(p.take(i)), idx); assert(p.take(i) == cl.take(i)); assert(!x_met(cl[i], w_tot(cl.take(i)), idx)); }
            else { assert(!x_met(cl[n], w_tot(cl.take(n)), idx)); }
        }
    }
}
// only which of the weighted positions are present matters
pub open spec fn same_below(a: Seq<u32>, b: Seq<u32>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] hit(a, i) == hit(b, i) }
pub proof fn l_part_same(c: Seq<Q>, off: int, a: Seq<u32>, b: Seq<u32>) requires off >= 0, same_below(a, b, off + c.len()) ensures w_part(c, off, a) == w_part(c, off, b) decreases c.len()
{ if c.len() > 0 { assert(same_below(a, b, off + c.drop_last().len())); l_part_same(c.drop_last(), off, a, b); assert(hit(a, off + c.len() - 1) == hit(b, off + c.len() - 1)); } }
pub proof fn l_sat_same(cl: Seq<Seq<Q>>, a: Seq<u32>, b: Seq<u32>) requires same_below(a, b, w_tot(cl)) ensures w_sat(cl, a) == w_sat(cl, b) decreases cl.len()
{ if cl.len() > 0 { l_tot_nn(cl.drop_last()); assert(same_below(a, b, w_tot(cl.drop_last()))); l_sat_same(cl.drop_last(), a, b); l_part_same(cl.last(), w_tot(cl.drop_last()), a, b); } }
pub proof fn l_part_all(c: Seq<Q>, off: int, a: Seq<u32>) requires off >= 0, forall|i: int| 0 <= i < off + c.len() ==> #[trigger] hit(a, i) ensures w_part(c, off, a) == w_sum(c) decreases c.len()
{ if c.len() > 0 { l_part_all(c.drop_last(), off, a); assert(hit(a, off + c.len() - 1)); } }
pub proof fn l_sat_all(cl: Seq<Seq<Q>>, a: Seq<u32>) requires forall|i: int| 0 <= i < w_tot(cl) ==> #[trigger] hit(a, i), forall|i: int| 0 <= i < cl.len() ==> w_full(#[trigger] cl[i]) ensures w_sat(cl, a) == Some(true) decreases cl.len()
{ if cl.len() > 0 { let p = cl.drop_last(); l_tot_nn(p); assert forall|i: int| 0 <= i < p.len() implies w_full(#[trigger] p[i]) by { assert(w_full(cl[i])); } l_sat_all(p, a); l_part_all(cl.last(), w_tot(p), a); assert(w_full(cl[cl.len() - 1])); } }
pub proof fn thm_threshold(v: TV, a: Seq<u32>, b: Seq<u32>)
    requires th_wf(v)
    ensures
        !v.weighted ==> th_sat(v, a) == Some(v.size > 0 && a.to_set().len() >= v.size),
        v.weighted ==> ({ let cl = w_of(v.thold)->Some_0; v.size == w_tot(cl)
            && (th_sat(v, a) == Some(true) ==> (forall|i: int| 0 <= i < cl.len() ==> #[trigger] x_met(cl[i], w_tot(cl.take(i)), a)))
            && (th_sat(v, a) == Some(false) ==> (exists|i: int| 0 <= i < cl.len() && !#[trigger] x_met(cl[i], w_tot(cl.take(i)), a)))
            && (same_below(a, b, v.size) ==> th_sat(v, a) == th_sat(v, b))
            && ((forall|i: int| 0 <= i < v.size ==> #[trigger] hit(a, i)) ==> th_sat(v, a) == Some(true)) })
{
    if v.weighted {
        let cl = w_of(v.thold)->Some_0; l_w_of(v.thold);
        assert(cl_ok(cl));
        l_x_sat(cl, a);
        if same_below(a, b, v.size) { l_sat_same(cl, a, b); }
        assert forall|i: int| 0 <= i < cl.len() implies w_full(#[trigger] cl[i]) by { assert(w_full(w_all(v.thold)[i])); }
        if forall|i: int| 0 <= i < v.size ==> #[trigger] hit(a, i) { l_sat_all(cl, a); }
    }
}
// ---- the representations agree ------------------------------------------------------------------------------
pub proof fn l_repl_joined(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, sep: u8, x: u8, y: u8)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> repl(#[trigger] a[i], x, y) == b[i], sep != x
    ensures repl(joined(a, seq![sep]), x, y) == joined(b, seq![sep])
    decreases a.len()
{
    if a.len() == 0 { assert(repl(joined(a, seq![sep]), x, y) =~= joined(b, seq![sep])); }
    else if a.len() == 1 { assert(repl(a[0], x, y) == b[0]); }
    else {
        let p = a.drop_last(); let q = b.drop_last(); assert forall|i: int| 0 <= i < p.len() implies repl(#[trigger] p[i], x, y) == q[i] by { assert(repl(a[i], x, y) == b[i]); }
        l_repl_joined(p, q, sep, x, y); assert(repl(a[a.len() - 1], x, y) == b[b.len() - 1]);
        let l = joined(p, seq![sep]); let r = joined(q, seq![sep]);
        assert(repl(l + seq![sep] + a.last(), x, y) =~= repl(l, x, y) + seq![sep] + repl(a.last(), x, y));
    }
}
pub proof fn l_joined_free(a: Seq<Seq<u8>>, sep: u8, c: int)
    requires all_free(a, c), sep != c
    ensures free(joined(a, seq![sep]), c)
    decreases a.len()
{
    if a.len() == 1 { assert(free(a[0], c)); }
    else if a.len() > 1 { let p = a.drop_last(); assert(all_free(p, c)) by { assert forall|i: int| 0 <= i < p.len() implies free(#[trigger] p[i], c) by { assert(free(a[i], c)); } }
        l_joined_free(p, sep, c); assert(free(a[a.len() - 1], c)); let l = joined(p, seq![sep]); let t = l + seq![sep] + a.last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != c by { if i < l.len() { assert(t[i] == l[i]); } else if i > l.len() { assert(t[i] == a.last()[i - l.len() - 1]); } } }
}
pub proof fn l_joined_b64(a: Seq<Seq<u8>>, sep: u8)
    requires forall|i: int| 0 <= i < a.len() ==> all_b64(#[trigger] a[i]), b64i(sep as int) >= 0
    ensures all_b64(joined(a, seq![sep]))
    decreases a.len()
{
    if a.len() == 1 { assert(all_b64(a[0])); }
    else if a.len() > 1 { let p = a.drop_last(); assert forall|i: int| 0 <= i < p.len() implies all_b64(#[trigger] p[i]) by { assert(all_b64(a[i])); }
        l_joined_b64(p, sep); assert(all_b64(a[a.len() - 1])); let l = joined(p, seq![sep]); let t = l + seq![sep] + a.last();
        assert forall|i: int| 0 <= i < t.len() implies b64i(#[trigger] t[i] as int) >= 0 by { if i < l.len() { assert(t[i] == l[i]); } else if i > l.len() { assert(t[i] == a.last()[i - l.len() - 1]); } } }
}
pub open spec fn w_cstrs(c: Seq<Q>) -> Seq<Seq<u8>> { Seq::new(c.len(), |i: int| q_str(c[i])) }
proof fn l_ctxt(c: Seq<Q>)
    requires qs_ok(c), c.len() > 0
    ensures all_b64(w_ctxt(c)), w_ctxt(c).len() > 0, w_ctxt(c)[0] <= 57, repl(w_ctxt(c), 115, 47) == joined(w_cstrs(c), seq![99u8]), free(joined(w_cstrs(c), seq![99u8]), 97), w_rclause(joined(w_cstrs(c), seq![99u8])) == w_cdv(c)
{
    let a = w_ctxts(c); let b = w_cstrs(c);
    assert forall|i: int| 0 <= i < a.len() implies repl(#[trigger] a[i], 115, 47) == b[i] by { assert(q_ok(c[i])); l_q_txt(c[i]); }
    assert forall|i: int| 0 <= i < a.len() implies all_b64(#[trigger] a[i]) by { assert(q_ok(c[i])); l_q_txt(c[i]); assert forall|j: int| 0 <= j < a[i].len() implies b64i(#[trigger] a[i][j] as int) >= 0 by { assert(w_char(a[i][j])); } }
    assert(all_free(b, 97)) by { assert forall|i: int| 0 <= i < b.len() implies free(#[trigger] b[i], 97) by { assert(q_ok(c[i])); l_q_txt(c[i]); } }
    assert(all_free(b, 99)) by { assert forall|i: int| 0 <= i < b.len() implies free(#[trigger] b[i], 99) by { assert(q_ok(c[i])); l_q_txt(c[i]); } }
    l_repl_joined(a, b, 99, 115, 47); l_joined_b64(a, 99); l_joined_free(b, 99, 97); l_split_joined(b, 99u8);
    l_joined_head(a, seq![99u8]); assert(q_ok(c[0])); l_q_txt(c[0]); assert(w_ctxt(c)[0] == a[0][0]);
    let r = w_rclause(joined(b, seq![99u8])); assert(r->Arr_0 =~= w_cdv(c)->Arr_0);
}
pub proof fn l_w_read(cl: Seq<Seq<Q>>)
    requires cl_ok(cl), cl.len() > 0
    ensures all_b64(w_txt(cl)), w_txt(cl).len() > 0, w_txt(cl)[0] <= 57, w_read(w_txt(cl)) == w_dv(cl)
{
    let a = w_txts(cl); let b = Seq::new(cl.len(), |i: int| joined(w_cstrs(cl[i]), seq![99u8]));
    assert forall|i: int| 0 <= i < a.len() implies repl(#[trigger] a[i], 115, 47) == b[i] && all_b64(a[i]) by { assert(qs_ok(cl[i])); l_ctxt(cl[i]); }
    assert(all_free(b, 97)) by { assert forall|i: int| 0 <= i < b.len() implies free(#[trigger] b[i], 97) by { assert(qs_ok(cl[i])); l_ctxt(cl[i]); } }
    l_repl_joined(a, b, 97, 115, 47); l_joined_b64(a, 97); l_split_joined(b, 97u8);
    l_joined_head(a, seq![97u8]); assert(qs_ok(cl[0])); l_ctxt(cl[0]); assert(w_txt(cl)[0] == a[0][0]);
    let r = w_read(w_txt(cl));
    assert(r->Arr_0 =~= w_dv(cl)->Arr_0) by { assert forall|i: int| 0 <= i < cl.len() implies #[trigger] r->Arr_0[i] == w_dv(cl)->Arr_0[i] by { assert(qs_ok(cl[i])); l_ctxt(cl[i]); assert(r->Arr_0[i] == w_rclause(b[i])); } }
}
proof fn l_lim_head(m: MV)
    requires m_wf(m)
    ensures ({ let l = m_text(m); let hs = m_sz(m.code)->Some_0.hs; l.len() > 0 && valid_utf8(l) && m_hard(l[0] as int) == Some(hs) && 0 < hs <= l.len() && bnd(l, hs) && l.subrange(0, hs) == m.code && m_parse(l) == Some(m) })
{
    let l = m_text(m); l_m_both(m); l_msz(m.code); assert(l.is_prefix_of(l)); thm_m_text_roundtrip(m, l); l_m_parse_ascii(l); thm_m_text_canonical(l);
    let hs = m_sz(m.code)->Some_0.hs;
    l_m_ascii(m);
    assert(m_hard(l[0] as int).is_some());
    assert(l.take(m_hard(l[0] as int)->Some_0) == m.code);
    assert(l.subrange(0, hs) =~= m.code);
}
// P: a number of at most 32 bits is the same threshold as value, as expression and as qualified text
pub proof fn thm_tholder_num(n: int)
    requires 0 <= n <= u32::MAX
    ensures ({ let v = th_num(n)->Some_0; th_num(n).is_some() && th_wf(v) && v.size == n && !v.weighted
        && th_thold(v.thold) == Some(v) && th_limen(th_limen_of(v)) == Some(v) && th_sith(th_sith_of(v)) == Some(v) && th_sith(v.thold) == Some(v) })
{
    let m = n_mv(n); l_n_new(n); l_lim_head(m); l_hex_rt(n as nat); let h = hex_digits(n as nat);
    assert(h[0] != 45 && h[0] != 91) by { assert(hexval(h[0] as int) >= 0); }
    assert(!seq![91u8].is_prefix_of(h)) by { if seq![91u8].is_prefix_of(h) { assert(seq![91u8][0] == h[0]); } }
    l_p_hex_rt(n as nat, i64::MAX as int);
}
proof fn l_th_limen_w(cl: Seq<Seq<Q>>, m: MV, x: Option<TV>)
    requires cl_ok(cl), cl.len() > 0, bx_given(seq![52u8, 65u8], w_txt(cl)) == Some(m), w_txt(cl).len() < 4 * 16777216 - 8, x == th_w(w_dv(cl))
    ensures th_limen(m_text(m)) == x
{
    l_w_read(cl); thm_bext(seq![52u8, 65u8], w_txt(cl)); l_lim_head(m);
    let l = m_text(m); let hs = m_sz(m.code)->Some_0.hs; let code = l.subrange(0, hs);
    assert(bx_code(m.code)); assert(bx_ty()(m.code));
    assert(!n_ty()(m.code)) by { assert(seq![77u8][0] == 77 && seq![78u8][0] == 78 && seq![48u8, 72u8][0] == 48 && seq![48u8, 65u8][0] == 48); }
    assert(m_only(m_parse(l), bx_ty()) == Some(m));
    assert(w_read(bx_str(m)) == w_dv(cl));
}
proof fn l_th_sith_w(cl: Seq<Seq<Q>>, d: DV, x: Option<TV>)
    requires cl_ok(cl), cl.len() > 0, d == w_dv(cl), x == th_w(d)
    ensures th_sith(d) == x, d->Arr_0.len() == 1 ==> th_sith(d->Arr_0[0]) == x
{
    hide(th_w); let a = d->Arr_0;
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) is Arr && a[i] == w_cdv(cl[i]) by {}
    assert(th_arr(d) == x);
    if a.len() == 1 {
        let e = a[0]; assert(seq![e] =~= a); assert(DV::Arr(seq![e]) == d); assert(e == w_cdv(cl[0])); assert(qs_ok(cl[0])); assert(e->Arr_0.len() == cl[0].len()); assert(e->Arr_0[0] is Str);
        assert(!(e->Arr_0[0] is Arr)); assert(th_arr(e) == x);
    }
}
// P: so is a weighted threshold whose text fits the largest Base64 string primitive
pub proof fn thm_tholder_weighted(v: TV)
    requires th_wf(v), v.weighted, w_txt(w_of(v.thold)->Some_0).len() < 4 * 16777216 - 8
    ensures th_thold(v.thold) == Some(v), th_limen(th_limen_of(v)) == Some(v), th_sith(th_sith_of(v)) == Some(v), th_sith(v.thold) == Some(v)
{
    hide(w_one); hide(w_tot); hide(joined); hide(q_txt); hide(m_parse); hide(m_text); hide(bx_given);
    let d = v.thold; let cl = w_of(d)->Some_0; l_w_of(d); let m = v.bexter->Some_0;
    assert(cl_ok(cl)); assert(th_w(d) == Some(v)); assert(d == w_dv(cl));
    l_th_limen_w(cl, m, Some(v)); l_th_sith_w(cl, d, Some(v));
}
// P: what is refused: negative numbers, clauses that cannot reach one, weights that are negative or over one
pub proof fn thm_tholder_refused(n: int, d: DV)
    ensures n < 0 ==> th_num(n).is_none(),
        th_w(d).is_some() ==> d is Arr && d->Arr_0.len() > 0 && (forall|i: int| 0 <= i < d->Arr_0.len() ==> (#[trigger] d->Arr_0[i]) is Arr && d->Arr_0[i]->Arr_0.len() > 0
            && w_full(w_clause(d->Arr_0[i])) && (forall|j: int| 0 <= j < d->Arr_0[i]->Arr_0.len() ==> ({ let q = w_clause(d->Arr_0[i])[j]; q_ok(q) && 0 <= q.n <= q.d && Some(q) == w_w(#[trigger] d->Arr_0[i]->Arr_0[j]) }))),
{
    if th_w(d).is_some() {
        l_w_of(d); let cl = w_all(d);
        assert forall|i: int| 0 <= i < d->Arr_0.len() implies (#[trigger] d->Arr_0[i]) is Arr && d->Arr_0[i]->Arr_0.len() > 0
            && w_full(w_clause(d->Arr_0[i])) && (forall|j: int| 0 <= j < d->Arr_0[i]->Arr_0.len() ==> ({ let q = w_clause(d->Arr_0[i])[j]; q_ok(q) && 0 <= q.n <= q.d && Some(q) == w_w(#[trigger] d->Arr_0[i]->Arr_0[j]) })) by {
            assert(w_clause_ok(d->Arr_0[i])); l_w_clause(d->Arr_0[i]); assert(w_full(cl[i])); assert(qs_ok(cl[i]) && cl[i].len() > 0);
        }
    }
}
