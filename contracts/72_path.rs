// ------------------------------------------------------------------------------------------
// Specification: paths into structures
// ------------------------------------------------------------------------------------------
pub use crate::pathing::pather::Pather;
pub open spec fn no_dash(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 45 }
// a component: a label, or a position as decimal text
pub open spec fn p_comp(x: DV) -> Option<Seq<u8>> {
    match x { DV::Str(t) => Some(t), DV::Int(n) => if i64::MIN <= n <= i64::MAX { Some(jint(n)) } else { None }, _ => None }
}
pub open spec fn p_comp_ok(x: DV) -> bool { match p_comp(x) { Some(t) => t.len() > 0 && all_b64(t) && no_dash(t), None => false } }
pub open spec fn p_comps(a: Seq<DV>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| p_comp(a[i])->Some_0) }
pub open spec fn p_comps_ok(a: Seq<DV>) -> bool { forall|i: int| 0 <= i < a.len() ==> p_comp_ok(#[trigger] a[i]) }
// the text of a path
pub open spec fn p_join(a: Seq<DV>) -> Seq<u8> { seq![45u8] + joined(p_comps(a), seq![45u8]) }
pub open spec fn p_text(d: DV) -> Option<Seq<u8>> { match d { DV::Arr(a) => if p_comps_ok(a) { Some(p_join(a)) } else { None }, _ => None } }
pub open spec fn p_strs(s: Seq<Seq<u8>>) -> Seq<DV> { Seq::new(s.len(), |i: int| DV::Str(s[i])) }
// the components a text stands for
pub open spec fn p_read(t: Seq<u8>) -> Option<Seq<DV>> {
    if t.len() == 0 || t[0] != 45 { None } else { let p = split_at(t.skip(1), 45); if p[0].len() == 0 { Some(Seq::empty()) } else { Some(p_strs(p)) } }
}
pub open spec fn p_path(m: MV) -> Option<Seq<DV>> { p_read(bx_str(m)) }
pub open spec fn p_bext(code: Option<Seq<u8>>, t: Seq<u8>) -> Option<MV> { bx_given(if code.is_some() { code->Some_0 } else { seq![52u8, 65u8] }, t) }
pub open spec fn p_new(code: Option<Seq<u8>>, d: DV) -> Option<MV> { match p_text(d) { Some(t) => p_bext(code, t), None => None } }
pub open spec fn p_fits(d: DV) -> bool { p_text(d).is_some() ==> p_text(d)->Some_0.len() < MAXLEN }
pub open spec fn p_under(a: Option<Seq<DV>>, r: Option<Seq<DV>>) -> Option<bool> { if a.is_some() && r.is_some() { Some(r->Some_0.is_prefix_of(a->Some_0)) } else { None } }
pub open spec fn p_root(a: Option<Seq<DV>>, r: Option<Seq<DV>>) -> Option<MV> { if a.is_some() && r.is_some() { p_new(None, DV::Arr(r->Some_0 + a->Some_0)) } else { None } }
pub open spec fn p_strip(m: MV, r: Option<Seq<DV>>) -> Option<MV> {
    match p_under(p_path(m), r) { Some(true) => p_new(None, DV::Arr(p_path(m)->Some_0.skip(r->Some_0.len() as int))), Some(false) => Some(m), None => None }
}
// following a path
pub open spec fn p_step(d: DV, x: Seq<u8>) -> Option<DV> {
    match d {
        DV::Obj(o) => match p_usize(x) { Some(i) => if i < o.len() { Some(o[i].1) } else { None }, None => if o_has(o, x) { Some(o_get(o, x)) } else { None } },
        DV::Arr(a) => match p_usize(x) { Some(i) => if i < a.len() { Some(a[i]) } else { None }, None => None },
        _ => None,
    }
}
pub open spec fn p_res(d: DV, p: Seq<DV>) -> Option<DV> decreases p.len() {
    if p.len() == 0 { Some(d) } else { match p[0] {
        DV::Str(x) => if d is Obj && x.len() == 0 { Some(d) } else { match p_step(d, x) { Some(e) => p_res(e, p.skip(1)), None => None } },
        _ => None } }
}
pub open spec fn p_tail(d: DV) -> Option<Seq<u8>> {
    match d { DV::Str(s) => if m_only(m_parse(s), dg_ty()).is_some() { Some(s) } else { None }, DV::Obj(o) => Some(jsn(d)), DV::Arr(a) => Some(jsn(d)), _ => None }
}
pub open spec fn p_is(r: Result<crate::data::Value>, d: Option<DV>) -> bool { match d { Some(x) => r.is_ok() && vw(r->Ok_0) == x, None => r.is_err() } }
pub trait VStartsVec { fn starts_with(&self, r: &Vec<crate::data::Value>) -> (b: bool); }
impl VStartsVec for Vec<crate::data::Value> { #[verifier::external_body] fn starts_with(&self, r: &Vec<crate::data::Value>) -> (b: bool)
    ensures b == dv_pre(self@, r@) { unimplemented!() } }
pub proof fn l_prefix1(s: Seq<u8>, c: u8) ensures seq![c].is_prefix_of(s) == (s.len() > 0 && s[0] == c) { let q = seq![c]; assert(q[0] == c); if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= q); } }
pub broadcast proof fn l_vws_empty(a: Seq<crate::data::Value>) requires a.len() == 0 ensures #[trigger] vws(a) == Seq::<DV>::empty() { assert(vws(a) =~= Seq::<DV>::empty()); }
pub broadcast proof fn l_vws_add(a: Seq<crate::data::Value>, b: Seq<crate::data::Value>) ensures #[trigger] vws(a + b) == vws(a) + vws(b) { assert(vws(a + b) =~= vws(a) + vws(b)); }
pub broadcast proof fn l_vws_sub(a: Seq<crate::data::Value>, i: int) requires 0 <= i <= a.len() ensures #[trigger] vws(a.subrange(i, a.len() as int)) == vws(a).skip(i), #[trigger] vws(a.skip(i)) == vws(a).skip(i) { assert(vws(a.subrange(i, a.len() as int)) =~= vws(a).skip(i)); assert(vws(a.skip(i)) =~= vws(a).skip(i)); }
pub open spec fn strs(a: Seq<DV>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Str }
pub proof fn l_p_path_strs(m: MV) ensures p_path(m).is_some() ==> strs(p_path(m)->Some_0) {}
pub open spec fn dv_pre(a: Seq<crate::data::Value>, r: Seq<crate::data::Value>) -> bool { r.len() <= a.len() && forall|i: int| 0 <= i < r.len() ==> dv_eq(vw(#[trigger] a[i]), vw(r[i])) }
pub proof fn l_vws_pre(a: Seq<crate::data::Value>, r: Seq<crate::data::Value>)
    ensures strs(vws(a)) && strs(vws(r)) ==> dv_pre(a, r) == vws(r).is_prefix_of(vws(a))
{
    broadcast use ax_dv_eq;
    if strs(vws(a)) && strs(vws(r)) {
        if r.len() <= a.len() {
            assert forall|i: int| 0 <= i < r.len() implies dv_eq(vw(#[trigger] a[i]), vw(r[i])) == (vws(a)[i] == vws(r)[i]) by { assert(vws(a)[i] is Str && vws(r)[i] is Str); }
            if dv_pre(a, r) { assert(vws(r) =~= vws(a).subrange(0, r.len() as int)); }
            if vws(r).is_prefix_of(vws(a)) { assert forall|i: int| 0 <= i < r.len() implies dv_eq(vw(#[trigger] a[i]), vw(r[i])) by { assert(vws(a).subrange(0, r.len() as int)[i] == vws(a)[i]); } }
        }
    }
}
pub proof fn l_comp_bad(d: DV, i: int) requires d is Arr, 0 <= i < d->Arr_0.len() ensures !p_comp_ok(d->Arr_0[i]) ==> p_text(d).is_none() {}
// ---- theorems ------------------------------------------------------------------------------
pub open spec fn p_ok(a: Seq<DV>) -> bool { strs(a) && p_comps_ok(a) }
pub proof fn l_path_strs(a: Seq<DV>) requires p_ok(a) ensures p_strs(p_comps(a)) == a
{ assert forall|i: int| 0 <= i < a.len() implies p_strs(p_comps(a))[i] == a[i] by { assert(a[i] is Str); } assert(p_strs(p_comps(a)) =~= a); }
pub proof fn l_path_comps(a: Seq<DV>) requires p_comps_ok(a) ensures p_ok(p_strs(p_comps(a))), p_comps(p_strs(p_comps(a))) == p_comps(a)
{ let b = p_strs(p_comps(a)); assert forall|i: int| 0 <= i < b.len() implies p_comp_ok(#[trigger] b[i]) && b[i] is Str by { assert(p_comp_ok(a[i])); } assert(p_comps(b) =~= p_comps(a)); }
proof fn l_path_txt(a: Seq<DV>)
    requires p_comps_ok(a)
    ensures all_b64(p_join(a)), p_read(p_join(a)) == Some(p_strs(p_comps(a)))
{
    let c = p_comps(a); let j = joined(c, seq![45u8]); let t = p_join(a);
    assert forall|i: int| 0 <= i < c.len() implies all_b64(#[trigger] c[i]) && free(c[i], 45) && c[i].len() > 0 by {
        assert(p_comp_ok(a[i])); let x = c[i]; assert forall|k: int| 0 <= k < x.len() implies #[trigger] x[k] != 45 by {} }
    assert(b64i(45) >= 0) by (compute);
    l_joined_b64(c, 45);
    assert forall|i: int| 0 <= i < t.len() implies b64i(#[trigger] t[i] as int) >= 0 by { if i > 0 { assert(t[i] == j[i - 1]); } }
    assert(t.skip(1) =~= j); assert(t[0] == 45);
    if a.len() == 0 { assert(j =~= Seq::<u8>::empty()); assert(p_strs(c) =~= Seq::<DV>::empty()); }
    else { assert(all_free(c, 45)) by { assert forall|i: int| 0 <= i < c.len() implies free(#[trigger] c[i], 45) by {} } l_split_joined(c, 45); assert(c[0].len() > 0); }
}
proof fn l_tail_len(a: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= a.len()
    ensures joined(a.skip(k), seq![45u8]).len() <= joined(a, seq![45u8]).len()
    decreases a.len()
{
    if k < a.len() && a.len() > 1 {
        l_tail_len(a.drop_last(), k);
        let b = a.skip(k); assert(b.drop_last() =~= a.drop_last().skip(k)); assert(b.last() == a.last());
        if b.len() == 1 { assert(b[0] == a.last()); }
    } else if k == a.len() { assert(a.skip(k) =~= Seq::<Seq<u8>>::empty()); } else { assert(a.skip(0) =~= a); if k == 0 {} }
}
// C20: a list of well-formed components makes a path that reads back as those components (positions as their decimal text)
// and survives text and binary form; everything else is refused
pub proof fn thm_path_build(code: Option<Seq<u8>>, d: DV)
    requires code.is_some() ==> bx_code(code->Some_0)
    ensures
        d is Arr && p_comps_ok(d->Arr_0) && p_join(d->Arr_0).len() < 4 * 16777216 - 8 ==> p_new(code, d).is_some() && ({ let m = p_new(code, d)->Some_0;
            t_wf(m, bx_ty()) && p_path(m) == Some(p_strs(p_comps(d->Arr_0))) && bx_str(m) == p_join(d->Arr_0) && m_parse(m_text(m)) == Some(m) && m_bparse(m_bin(m)) == Some(m) }),
        !(d is Arr) || (exists|i: int| 0 <= i < d->Arr_0.len() && !p_comp_ok(#[trigger] d->Arr_0[i])) ==> p_new(code, d).is_none(),
{
    if d is Arr && p_comps_ok(d->Arr_0) && p_join(d->Arr_0).len() < 4 * 16777216 - 8 {
        let t = p_join(d->Arr_0); let c = if code.is_some() { code->Some_0 } else { seq![52u8, 65u8] };
        assert(seq![52u8, 65u8][0] == 52 && seq![52u8, 65u8][1] == 65);
        l_path_txt(d->Arr_0); assert(t[0] == 45); thm_bext(c, t);
    }
}
// C20: re-rooting puts the root in front, what is re-rooted is under the root, and stripping gives the path back
pub proof fn thm_path_root(p: Seq<DV>, r: Seq<DV>)
    requires p_ok(p), p_ok(r), p_join(r + p).len() < 4 * 16777216 - 8
    ensures p_root(Some(p), Some(r)).is_some(), ({ let m = p_root(Some(p), Some(r))->Some_0;
        p_path(m) == Some(r + p) && p_under(p_path(m), Some(r)) == Some(true) && p_strip(m, Some(r)).is_some() && p_path(p_strip(m, Some(r))->Some_0) == Some(p) })
{
    let a = r + p;
    assert forall|i: int| 0 <= i < a.len() implies p_comp_ok(#[trigger] a[i]) && a[i] is Str by { if i < r.len() { assert(a[i] == r[i]); } else { assert(a[i] == p[i - r.len()]); } }
    assert(p_ok(a)); thm_path_build(None, DV::Arr(a)); l_path_strs(a); l_path_strs(p);
    assert(a.subrange(0, r.len() as int) =~= r); assert(a.skip(r.len() as int) =~= p); assert(r.is_prefix_of(a));
    assert(p_comps(a).skip(r.len() as int) =~= p_comps(p)); l_tail_len(p_comps(a), r.len() as int);
    thm_path_build(None, DV::Arr(p));
}
// C20: stripping a leading part and putting it back gives the path; a path that is not under the root is left alone
pub proof fn thm_path_strip(m: MV, r: Seq<DV>)
    requires p_path(m).is_some(), p_ok(p_path(m)->Some_0), p_join(p_path(m)->Some_0).len() < 4 * 16777216 - 8
    ensures
        p_under(p_path(m), Some(r)) == Some(r.is_prefix_of(p_path(m)->Some_0)),
        r.is_prefix_of(p_path(m)->Some_0) ==> p_strip(m, Some(r)).is_some() && ({ let s = p_strip(m, Some(r))->Some_0;
            p_path(s) == Some(p_path(m)->Some_0.skip(r.len() as int)) && p_root(p_path(s), Some(r)).is_some() && p_path(p_root(p_path(s), Some(r))->Some_0) == p_path(m) }),
        !r.is_prefix_of(p_path(m)->Some_0) ==> p_strip(m, Some(r)) == Some(m),
{
    let a = p_path(m)->Some_0;
    if r.is_prefix_of(a) {
        let p = a.skip(r.len() as int); assert(r =~= a.subrange(0, r.len() as int)); assert(a =~= r + p);
        assert forall|i: int| 0 <= i < p.len() implies p_comp_ok(#[trigger] p[i]) && p[i] is Str by { assert(p[i] == a[i + r.len()]); }
        assert forall|i: int| 0 <= i < r.len() implies p_comp_ok(#[trigger] r[i]) && r[i] is Str by { assert(r[i] == a[i]); }
        thm_path_root(p, r); assert(p_comps(a).skip(r.len() as int) =~= p_comps(p)); l_tail_len(p_comps(a), r.len() as int);
        thm_path_build(None, DV::Arr(p)); l_path_strs(p); thm_path_build(None, DV::Arr(a)); l_path_strs(a);
    }
}
// C20: the empty path is the whole structure; a longer path is followed step by step
pub proof fn thm_path_resolve(d: DV, r: Seq<DV>, p: Seq<DV>)
    requires p_ok(r)
    ensures p_res(d, Seq::empty()) == Some(d), p_res(d, r + p) == (match p_res(d, r) { Some(e) => p_res(e, p), None => None })
    decreases r.len()
{
    if r.len() == 0 { assert(r + p =~= p); }
    else {
        let a = r + p; assert(a[0] == r[0]); assert(a.skip(1) =~= r.skip(1) + p); assert(p_comp_ok(r[0]) && r[0] is Str);
        let t = r.skip(1); assert forall|i: int| 0 <= i < t.len() implies p_comp_ok(#[trigger] t[i]) && t[i] is Str by { assert(t[i] == r[i + 1]); }
        match p_step(d, r[0]->Str_0) { Some(e) => { thm_path_resolve(e, t, p); } None => {} }
    }
}
// C20: one step takes the field with that label, or the field or element at that position
pub proof fn thm_path_step(d: DV, x: Seq<u8>, n: int)
    requires x.len() > 0, 0 <= n <= usize::MAX
    ensures
        d is Obj && p_usize(x).is_none() ==> p_res(d, seq![DV::Str(x)]) == (if o_has(d->Obj_0, x) { Some(o_get(d->Obj_0, x)) } else { None }),
        d is Arr && p_usize(x).is_none() ==> p_res(d, seq![DV::Str(x)]).is_none(),
        !(d is Arr) && !(d is Obj) ==> p_res(d, seq![DV::Str(x)]).is_none(),
        p_usize(jint(n)) == Some(n),
        d is Arr && p_usize(x) == Some(n) ==> p_res(d, seq![DV::Str(x)]) == (if n < d->Arr_0.len() { Some(d->Arr_0[n]) } else { None }),
        d is Obj && p_usize(x) == Some(n) ==> p_res(d, seq![DV::Str(x)]) == (if n < d->Obj_0.len() { Some(d->Obj_0[n].1) } else { None }),
{
    reveal_with_fuel(p_res, 2); let s = seq![DV::Str(x)]; assert(s[0] == DV::Str(x)); assert(s.skip(1) =~= Seq::<DV>::empty());
    l_dec(n as nat); let t = dec_digits(n as nat); assert(48 <= t[0] <= 57);
}
