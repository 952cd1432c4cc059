// ------------------------------------------------------------------------------------------
// Identifier prefixes (prefixer.rs)
// ------------------------------------------------------------------------------------------
pub open spec fn lab_t() -> Seq<u8> { seq![116u8] }
pub open spec fn lab_i() -> Seq<u8> { seq![105u8] }
pub open spec fn lab_d() -> Seq<u8> { seq![100u8] }
pub open spec fn lab_k() -> Seq<u8> { seq![107u8] }
pub open spec fn lab_n() -> Seq<u8> { seq![110u8] }
pub open spec fn lab_b() -> Seq<u8> { seq![98u8] }
pub open spec fn lab_a() -> Seq<u8> { seq![97u8] }
pub proof fn l_labs() ensures lab_t() != lab_i(), lab_t() != lab_d(), lab_i() != lab_d(), lab_k() != lab_i(), lab_k() != lab_d(), lab_n() != lab_i(), lab_n() != lab_d(), lab_v() != lab_i(), lab_v() != lab_d(), lab_v() != lab_t(), lab_v() != lab_k(), lab_v() != lab_n()
{ assert(lab_t()[0] == 116); assert(lab_i()[0] == 105); assert(lab_d()[0] == 100); assert(lab_k()[0] == 107); assert(lab_n()[0] == 110); assert(lab_v()[0] == 118); }
pub open spec fn pf_ilk(s: Seq<u8>) -> bool { s == seq![105u8, 99u8, 112u8] || s == seq![100u8, 105u8, 112u8] || s == seq![118u8, 99u8, 112u8] }
// an inception event
pub open spec fn pf_incept(d: DV) -> bool { d_has(d, lab_t()) && d_get(d, lab_t()) is Str && pf_ilk(d_get(d, lab_t())->Str_0) }
pub open spec fn pf_nt(c: Seq<u8>) -> bool { c == seq![66u8] || c == seq![49u8, 65u8, 65u8, 65u8] || c == seq![49u8, 65u8, 65u8, 73u8] }
pub open spec fn pf_tr(c: Seq<u8>) -> bool { c == seq![68u8] || c == seq![49u8, 65u8, 65u8, 66u8] || c == seq![49u8, 65u8, 65u8, 74u8] }
pub open spec fn pf_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| pf_nt(c) || pf_tr(c) || h_alg(c).is_some() }
// the text of the single key
pub open spec fn pf_key(d: DV) -> Option<Seq<u8>> {
    if d_has(d, lab_k()) && d_get(d, lab_k()) is Arr && d_get(d, lab_k())->Arr_0.len() == 1 && d_get(d, lab_k())->Arr_0[0] is Str { Some(d_get(d, lab_k())->Arr_0[0]->Str_0) } else { None }
}
pub open spec fn pf_mt(v: DV) -> bool { (v is Arr && v->Arr_0.len() == 0) || (v is Str && v->Str_0.len() == 0) }
pub open spec fn pf_void(d: DV, k: Seq<u8>) -> bool { d_has(d, k) ==> pf_mt(d_get(d, k)) }
pub open spec fn pf_basic(d: DV, code: Seq<u8>) -> Option<Seq<u8>> {
    match pf_key(d) { None => None, Some(t) => match m_only(m_parse(t), vk_ty()) { None => None, Some(m) => if m.code == code { Some(m.raw) } else { None } } }
}
pub open spec fn pf_fill(d: DV, code: Seq<u8>) -> DV { d_set(d_set(d, lab_i(), DV::Str(dummy(code))), lab_d(), DV::Str(dummy(code))) }
pub open spec fn pf_dig(d: DV, code: Seq<u8>) -> Option<Seq<u8>> {
    match sz_of(pf_fill(d, code), None) { None => None, Some((raw, d2, id)) => Some(h_dig(code, raw)) }
}
// the material of the prefix of an inception event under a code
pub open spec fn pf_derive(d: DV, code: Seq<u8>) -> Option<Seq<u8>> {
    if !pf_incept(d) { None }
    else if pf_nt(code) { if pf_void(d, lab_n()) && pf_void(d, lab_b()) && pf_void(d, lab_a()) { pf_basic(d, code) } else { None } }
    else if pf_tr(code) { pf_basic(d, code) }
    else if h_alg(code).is_some() { pf_dig(d, code) }
    else { None }
}
pub open spec fn pf_here(m: MV, d: DV) -> bool { d_has(d, lab_i()) && d_get(d, lab_i()) == DV::Str(m_text(m)) }
pub open spec fn pf_commits(v: DV) -> bool { (v is Arr && v->Arr_0.len() > 0) || (v is Str && v->Str_0.len() > 0) }
pub open spec fn pf_verify(m: MV, d: DV, prefixed: bool) -> bool {
    &&& pf_incept(d)
    &&& prefixed ==> pf_here(m, d)
    &&& if pf_nt(m.code) { pf_key(d) == Some(m_text(m)) && (d_has(d, lab_n()) ==> !pf_commits(d_get(d, lab_n()))) }
        else if pf_tr(m.code) { pf_key(d) == Some(m_text(m)) }
        else { pf_dig(d, m.code) == Some(m.raw) }
}
pub open spec fn pf_mv(code: Seq<u8>, raw: Seq<u8>) -> MV { MV { code: code, size: 0, raw: raw } }
pub open spec fn pf_code(d: DV, code: Option<Seq<u8>>) -> Option<Seq<u8>> {
    if code.is_some() { code } else if d_has(d, lab_i()) && d_get(d, lab_i()) is Str { match m_parse(d_get(d, lab_i())->Str_0) { Some(m) => Some(m.code), None => None } } else { None }
}
pub open spec fn pf_allowed(al: Seq<&Str>, c: Seq<u8>) -> bool { al.len() == 0 || exists|i: int| 0 <= i < al.len() && (#[trigger] al[i])@ == c }
pub open spec fn pf_of(d: DV, al: Seq<&Str>, code: Option<Seq<u8>>) -> Option<MV> {
    match pf_code(d, code) { None => None, Some(c) => if !pf_allowed(al, c) { None } else { match pf_derive(d, c) { None => None, Some(raw) => Some(pf_mv(c, raw)) } } }
}
pub open spec fn pf_fits(d: DV, code: Option<Seq<u8>>) -> bool { match pf_code(d, code) { Some(c) => jsn(pf_fill(d, c)).len() <= 0xffff_ffff, None => true } }
pub proof fn l_pf_ty(c: Seq<u8>)
    ensures pf_nt(c) ==> !pf_tr(c) && h_alg(c).is_none() && vk_ty()(c), pf_tr(c) ==> !pf_nt(c) && h_alg(c).is_none() && vk_ty()(c), h_alg(c).is_some() ==> !pf_nt(c) && !pf_tr(c),
        pf_ty()(c) ==> m_sz(c).is_some() && m_sz(c)->Some_0.fs != -1
{ reveal(m_sz); if c.len() == 1 { assert(c =~= seq![c[0]]); } if c.len() == 4 { assert(c =~= seq![c[0], c[1], c[2], c[3]]); } if c.len() == 2 { assert(c =~= seq![c[0], c[1]]); } }
pub proof fn l_pf(m: MV)
    requires t_wf(m, pf_ty())
    ensures m_st(m), m.size == 0, m.raw.len() < MAXLEN
{ reveal(m_sz); }
// new primitive material of a fixed-size code
pub proof fn l_m_fix_new(m: MV)
    requires m_wf(m), m_sz(m.code)->Some_0.fs != -1
    ensures m_new(m.code, m.raw) == Some(m), m.size == 0
{ broadcast use l_msz; assert(m.raw.take(m.raw.len() as int) =~= m.raw); }
pub proof fn l_pf_basic(d: DV, code: Seq<u8>)
    ensures pf_basic(d, code).is_some() ==> ({ let m = pf_mv(code, pf_basic(d, code)->Some_0); m_wf(m) && vk_ty()(code) && m_parse(pf_key(d)->Some_0) == Some(m) && m_new(code, m.raw) == Some(m) })
{ if pf_basic(d, code).is_some() { let t = pf_key(d)->Some_0; thm_m_text_canonical(t); let m = m_parse(t)->Some_0; reveal(m_sz); l_m_fix_new(m); assert(m == pf_mv(code, m.raw)); } }
pub proof fn l_pf_derive(d: DV, code: Seq<u8>)
    ensures pf_derive(d, code).is_some() ==> ({ let m = pf_mv(code, pf_derive(d, code)->Some_0); t_wf(m, pf_ty()) && m_new(code, m.raw) == Some(m) && m.raw.len() < MAXLEN && m_st(m) })
{
    broadcast use ax_hash;
    l_pf_ty(code);
    if pf_derive(d, code).is_some() {
        let m = pf_mv(code, pf_derive(d, code)->Some_0);
        if pf_nt(code) || pf_tr(code) { l_pf_basic(d, code); } else { l_dg_new(code, m.raw); }
        l_pf(m);
    }
}
pub proof fn l_pf_code_of(c: Seq<u8>, raw: Seq<u8>)
    ensures m_new(c, raw).is_some() && pf_ty()(m_new(c, raw)->Some_0.code) ==> m_new(c, raw)->Some_0.code == c
{ if m_new(c, raw).is_some() && 52 <= c[0] <= 57 { assert(m_new(c, raw)->Some_0.code[0] >= 52); } }
// setting a field does not interfere with setting another one that is there already
pub proof fn l_o_set_comm(o: DObj, k1: Seq<u8>, v1: DV, k2: Seq<u8>, v2: DV)
    requires o_has(o, k1), k1 != k2
    ensures o_set(o_set(o, k2, v2), k1, v1) == o_set(o_set(o, k1, v1), k2, v2)
{
    l_o_find(o, k1); l_o_find(o, k2);
    let a = o_set(o, k2, v2); let b = o_set(o, k1, v1);
    l_o_set(o, k2, v2, k1); l_o_set(o, k1, v1, k2);
    l_o_find(a, k1); l_o_find(b, k2);
    let f = o_find(o, k1); let g = o_find(o, k2);
    assert(o_find(a, k1) == f) by { let h = o_find(a, k1); assert(a[f].0 == k1); if h < f { assert(a[h] == o[h] || h == g); } }
    if g >= 0 { assert(o_find(b, k2) == g) by { let h = o_find(b, k2); assert(b[g].0 == k2); if h < g { assert(b[h].0 == o[h].0); } } }
    assert(o_set(a, k1, v1) =~= o_set(b, k2, v2));
}
// the digest does not depend on what the identifier fields hold
pub proof fn l_pf_fill(d: DV, code: Seq<u8>, v1: DV, v2: DV)
    requires d is Obj
    ensures pf_fill(d_set(d_set(d, lab_i(), v1), lab_d(), v2), code) == pf_fill(d, code)
{
    l_labs();
    let x = DV::Str(dummy(code)); let o = d->Obj_0;
    let a = o_set(o, lab_i(), v1);
    l_o_set(o, lab_i(), v1, lab_i());
    l_o_set_comm(a, lab_i(), x, lab_d(), v2);
    l_o_set2(o, lab_i(), v1, x);
    l_o_set2(o_set(o, lab_i(), x), lab_d(), v2, x);
}
// nor on the size the version string held
pub proof fn l_pf_sized(d: DV, code: Seq<u8>, v1: DV, v2: DV)
    requires d is Obj, sz_of(pf_fill(d, code), None).is_some()
    ensures ({ let d2 = sz_of(pf_fill(d, code), None)->Some_0.1; let d3 = d_set(d_set(d2, lab_i(), v1), lab_d(), v2); d2 is Obj && pf_fill(d3, code) == d2 && sz_of(d2, None) == sz_of(pf_fill(d, code), None) })
{
    l_labs();
    let f = pf_fill(d, code); let x = DV::Str(dummy(code));
    thm_sizeify(f, None); thm_sizeify_idem(f, None);
    let d2 = sz_of(f, None)->Some_0.1;
    l_pf_fill(d2, code, v1, v2);
    l_d_set(d, lab_i(), x, lab_i()); l_d_set(d_set(d, lab_i(), x), lab_d(), x, lab_i());
    assert(d_has(f, lab_i()) && d_get(f, lab_i()) == x && d_has(f, lab_d()) && d_get(f, lab_d()) == x);
    l_o_set_same(d2->Obj_0, lab_i()); l_o_set_same(d2->Obj_0, lab_d());
}
pub open spec fn pf_filled(d: DV, m: MV) -> DV { d_set(d_set(d, lab_i(), DV::Str(m_text(m))), lab_d(), DV::Str(m_text(m))) }
// C17: a prefix derived from an inception event verifies it, before and after the prefix has been filled in and the event sized
pub proof fn thm_prefix_digest(d: DV, code: Seq<u8>)
    requires pf_derive(d, code).is_some(), h_alg(code).is_some()
    ensures ({ let m = pf_mv(code, pf_derive(d, code)->Some_0); let d2 = sz_of(pf_fill(d, code), None)->Some_0.1;
        pf_verify(m, d, false) && pf_verify(m, pf_filled(d, m), true) && pf_verify(m, pf_filled(d2, m), true) })
{
    l_pf_ty(code); l_labs();
    let m = pf_mv(code, pf_derive(d, code)->Some_0); let f = pf_fill(d, code); let x = DV::Str(dummy(code));
    let t = DV::Str(m_text(m));
    thm_sizeify(f, None);
    let d2 = sz_of(f, None)->Some_0.1;
    l_pf_fill(d, code, t, t); l_pf_sized(d, code, t, t);
    l_d_set(d, lab_i(), x, lab_t()); l_d_set(d_set(d, lab_i(), x), lab_d(), x, lab_t());
    l_d_set(d, lab_i(), t, lab_t()); l_d_set(d_set(d, lab_i(), t), lab_d(), t, lab_t());
    l_d_set(d2, lab_i(), t, lab_t()); l_d_set(d_set(d2, lab_i(), t), lab_d(), t, lab_t());
    l_d_set(d, lab_i(), t, lab_i()); l_d_set(d_set(d, lab_i(), t), lab_d(), t, lab_i());
    l_d_set(d2, lab_i(), t, lab_i()); l_d_set(d_set(d2, lab_i(), t), lab_d(), t, lab_i());
}
// ... a basic one as well, when its key is the exact text of a key
pub proof fn thm_prefix_basic(d: DV, code: Seq<u8>)
    requires pf_derive(d, code).is_some(), pf_nt(code) || pf_tr(code), pf_key(d)->Some_0 == m_text(m_parse(pf_key(d)->Some_0)->Some_0)
    ensures ({ let m = pf_mv(code, pf_derive(d, code)->Some_0); let d2 = d_set(d, lab_i(), DV::Str(m_text(m))); pf_verify(m, d, false) && pf_verify(m, d2, true) })
{
    l_pf_basic(d, code); l_labs(); l_pf_ty(code);
    let m = pf_mv(code, pf_derive(d, code)->Some_0); let t = DV::Str(m_text(m));
    l_d_set(d, lab_i(), t, lab_i()); l_d_set(d, lab_i(), t, lab_k()); l_d_set(d, lab_i(), t, lab_n()); l_d_set(d, lab_i(), t, lab_t());
}
// ... and nothing else: the event of a basic prefix has that prefix as its single key, the event of a digest prefix that digest
pub proof fn thm_prefix_only(m: MV, d: DV, prefixed: bool)
    requires t_wf(m, pf_ty()), pf_verify(m, d, prefixed)
    ensures pf_incept(d), prefixed ==> pf_here(m, d), h_alg(m.code).is_none() ==> d_get(d, lab_k()) is Arr && d_get(d, lab_k())->Arr_0 =~= seq![DV::Str(m_text(m))],
        pf_nt(m.code) && d_has(d, lab_n()) ==> !pf_commits(d_get(d, lab_n())),
        h_alg(m.code).is_some() ==> m.raw == h_dig(m.code, jsn(sz_of(pf_fill(d, m.code), None)->Some_0.1))
{ l_pf_ty(m.code); if sz_of(pf_fill(d, m.code), None).is_some() { thm_sizeify(pf_fill(d, m.code), None); } }
pub trait VContains<X> { spec fn vhas(&self, x: X) -> bool; fn vcontains(&self, x: X) -> (r: bool) ensures r == self.vhas(x); }
impl<'a, 'b, 'c> VContains<&'b &'c Str> for [&'a Str] { open spec fn vhas(&self, x: &'b &'c Str) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ }
    #[verifier::external_body] fn vcontains(&self, x: &'b &'c Str) -> (r: bool) { unimplemented!() } }
impl<P: VPat> VContains<P> for Str { open spec fn vhas(&self, x: P) -> bool { if x.pv().len() == 1 { exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x.pv()[0] } else { exists|i: int| 0 <= i <= self@.len() - x.pv().len() && #[trigger] self@.subrange(i, i + x.pv().len()) == x.pv() } }
    #[verifier::external_body] fn vcontains(&self, x: P) -> (r: bool) { unimplemented!() } }
