use crate::cesr::core::matter::Matter as _; use crate::cesr::core::indexer::Indexer as _;
// ------------------------------------------------------------------------------------------
// Specification: signers, salts
// ------------------------------------------------------------------------------------------
// verification key code of a seed's suite
pub open spec fn sn_vk(su: int, tr: bool) -> Seq<u8> {
    if su == 0 { if tr { seq![68u8] } else { seq![66u8] } }
    else if su == 1 { if tr { seq![49u8, 65u8, 65u8, 66u8] } else { seq![49u8, 65u8, 65u8, 65u8] } }
    else { if tr { seq![49u8, 65u8, 65u8, 74u8] } else { seq![49u8, 65u8, 65u8, 73u8] } }
}
pub open spec fn sn_su(m: MV) -> int { s_suite(m.code)->Some_0 }
// the verification key of a seed
pub open spec fn sn_verfer(m: MV, tr: bool) -> Option<MV> {
    match s_pub(sn_su(m), m.raw) { Some(pk) => Some(MV { code: sn_vk(sn_su(m), tr), size: 0, raw: pk }), None => None }
}
// what every constructor of Signer establishes
pub open spec fn sn_ok(m: MV, v: MV) -> bool { t_wf(m, sd_ty()) && (sn_verfer(m, true) == Some(v) || sn_verfer(m, false) == Some(v)) }
pub open spec fn sn_in(code: Option<&Str>, raw: Option<&[u8]>, qb64b: Option<&[u8]>, qb64: Option<&Str>, qb2: Option<&[u8]>) -> Option<MV> {
    t_new(if qb64b.is_none() && qb64.is_none() && qb2.is_none() { Some(seq![65u8]) } else { None }, sd_ty(), code, raw, qb64b, qb64, qb2)
}
pub open spec fn sn_res(res: Result<crate::signing::signer::Signer>, e: Option<MV>, tr: bool) -> bool {
    res.is_ok() == (e.is_some() && sn_verfer(e->Some_0, tr).is_some()) && (res.is_ok() ==> sn_is(res->Ok_0, e, tr))
}
pub open spec fn sn_is(r: crate::signing::signer::Signer, e: Option<MV>, tr: bool) -> bool {
    Some(r.mv()) == e && Some(r.verfer.mv()) == sn_verfer(r.mv(), tr) && sn_ok(r.mv(), r.verfer.mv())
}
pub open spec fn b_or(o: Option<bool>, d: bool) -> bool { if o.is_some() { o->Some_0 } else { d } }
pub open spec fn s_or(o: Option<&Str>, d: Seq<u8>) -> Seq<u8> { if o.is_some() { o->Some_0@ } else { d } }
pub proof fn l_sd(m: MV)
    requires t_wf(m, sd_ty())
    ensures m.size == 0, m.raw.len() == 32, s_suite(m.code).is_some(), 0 <= sn_su(m) < 3, m_st(m)
{ l_sd_new(m.code, zeros(32)); }
pub proof fn l_sd_new(c: Seq<u8>, raw: Seq<u8>)
    requires sd_ty()(c), raw.len() >= 32
    ensures m_new(c, raw) == Some(MV { code: c, size: 0, raw: raw.take(32) }), raw.len() == 32 ==> raw.take(32) == raw,
        t_wf(MV { code: c, size: 0, raw: raw.take(32) }, sd_ty()), m_sz(c) == Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 })
{ reveal(m_sz); assert(raw.len() == 32 ==> raw.take(32) =~= raw); }
#[verifier::spinoff_prover]
pub proof fn l_vk_new(su: int, tr: bool, raw: Seq<u8>)
    requires 0 <= su < 3, raw.len() == (if su == 0 { 32int } else { 33 })
    ensures vk_ty()(sn_vk(su, tr)), s_suite(sn_vk(su, tr)) == Some(su), m_new(sn_vk(su, tr), raw) == Some(MV { code: sn_vk(su, tr), size: 0, raw }), m_wf(MV { code: sn_vk(su, tr), size: 0, raw })
{ reveal(m_sz); assert(raw.take(raw.len() as int) =~= raw); let c = sn_vk(su, tr); assert(c.len() > 0 && !(52 <= c[0] <= 57));
  assert(sn_vk(1, true)[3] == 66); assert(sn_vk(1, false)[3] == 65); assert(sn_vk(2, true)[3] == 74); assert(sn_vk(2, false)[3] == 73); }
pub proof fn l_sn_pub(m: MV)
    requires t_wf(m, sd_ty())
    ensures x_sk_ok(sn_su(m), m.raw) ==> s_pub(sn_su(m), m.raw).is_some(),
        forall|tr: bool| #[trigger] sn_verfer(m, tr).is_some() ==> ({ let v = sn_verfer(m, tr)->Some_0; t_wf(v, vk_ty()) && s_suite(v.code) == Some(sn_su(m)) && m_new(v.code, v.raw) == Some(v) && v.raw == x_pub(sn_su(m), m.raw) }),
        sn_verfer(m, true).is_some() == sn_verfer(m, false).is_some(),
        sn_su(m) == 0 ==> sn_verfer(m, true).is_some(),
        sn_su(m) != 0 ==> sn_verfer(m, true).is_some() == x_sk_ok(sn_su(m), m.raw),
{
    broadcast use ax_pub; l_sd(m); assert(m.raw.take(32) =~= m.raw);
    let pk = x_pub(sn_su(m), m.raw);
    assert forall|tr: bool| #[trigger] sn_verfer(m, tr).is_some() implies ({ let v = sn_verfer(m, tr)->Some_0; t_wf(v, vk_ty()) && s_suite(v.code) == Some(sn_su(m)) && m_new(v.code, v.raw) == Some(v) && v.raw == pk }) by { l_vk_new(sn_su(m), tr, pk); }
}
// signature code of a suite
pub open spec fn sn_ccode(su: int) -> Seq<u8> { if su == 0 { seq![48u8, 66u8] } else if su == 1 { seq![48u8, 67u8] } else { seq![48u8, 73u8] } }
pub proof fn l_cg_new(su: int, raw: Seq<u8>)
    requires 0 <= su < 3, raw.len() == 64
    ensures cg_ty()(sn_ccode(su)), m_new(sn_ccode(su), raw) == Some(MV { code: sn_ccode(su), size: 0, raw })
{ reveal(m_sz); assert(raw.take(64) =~= raw); let c = sn_ccode(su); assert(c.len() > 0 && !(52 <= c[0] <= 57)); }
// indexed signature code: A/C/E both lists same index, B/D/F current list only; the big forms from 64 on or when the indices differ
pub open spec fn sn_icode(su: int, only: bool, index: int, ondex: int) -> Seq<u8> {
    let k = (65 + 2 * su + (if only { 1int } else { 0 })) as u8;
    if index < 64 && (only || index == ondex) { seq![k] } else { seq![50u8, k] }
}
pub open spec fn sn_iv(su: int, only: bool, index: int, ondex: int, sig: Seq<u8>) -> Option<IV> {
    if index < 4096 && (only || ondex < 4096) { Some(IV { code: sn_icode(su, only, index, ondex), raw: sig, index, ondex: if only { 0 } else { ondex } }) } else { None }
}
pub proof fn l_sn_iv(su: int, only: bool, index: int, ondex: int, sig: Seq<u8>)
    requires 0 <= su < 3, 0 <= index, 0 <= ondex, sig.len() == 64
    ensures i_new(sn_icode(su, only, index, ondex), sig, index, if only { None } else { Some(ondex) }) == sn_iv(su, only, index, ondex, sig), sg_ty(sn_icode(su, only, index, ondex))
{ reveal(i_sz); reveal(i_cur); reveal(i_both_lists); l_pow64(1); l_pow64(2); assert(sig.take(64) =~= sig); let c = sn_icode(su, only, index, ondex); }
// P: what a signer signs verifies under the signer's own verification key
pub proof fn thm_signer(m: MV, v: MV, ser: Seq<u8>, sig: Seq<u8>)
    requires sn_ok(m, v), x_signed(sn_su(m), m.raw, ser, sig)
    ensures s_ver(s_suite(v.code)->Some_0, v.raw, sig, ser) == Some(true), t_wf(v, vk_ty())
{ broadcast use {ax_signed, ax_pub}; l_sd(m); l_sn_pub(m); assert(m.raw.take(32) =~= m.raw); if sn_su(m) == 0 { ax_ed_sk(m.raw); } }

// ---- salts --------------------------------------------------------------------------------------
pub open spec fn sl_tier(own: Seq<u8>, tier: Option<&Str>, temp: Option<bool>) -> Seq<u8> { if b_or(temp, false) { t_min() } else { s_or(tier, own) } }
pub open spec fn sl_signer(raw: Seq<u8>, own: Seq<u8>, code: Option<&Str>, path: Seq<u8>, tier: Option<&Str>, temp: Option<bool>) -> Option<MV> {
    let c = s_or(code, seq![65u8]);
    if !sd_ty()(c) { None } else { match a_stretch(path, raw, 32, sl_tier(own, tier, temp)) { Some(seed) => Some(MV { code: c, size: 0, raw: seed }), None => None } }
}
pub open spec fn sl_nth(raw: Seq<u8>, own: Seq<u8>, code: Option<&Str>, path: Option<&Str>, tier: Option<&Str>, temp: Option<bool>, n: int) -> Option<MV> { sl_signer(raw, own, code, sl_path(s_or(path, Seq::empty()), n), tier, temp) }
pub open spec fn n_or(o: Option<usize>, d: int) -> int { if o.is_some() { o->Some_0 as int } else { d } }
pub open spec fn sl_path(path: Seq<u8>, n: int) -> Seq<u8> { path + hex_digits(n as nat) }
pub proof fn l_m_new_code(c: Seq<u8>)
    ensures forall|raw: Seq<u8>| (#[trigger] m_new(c, raw)).is_some() && sd_ty()(m_new(c, raw)->Some_0.code) ==> sd_ty()(c),
{
    assert forall|raw: Seq<u8>| (#[trigger] m_new(c, raw)).is_some() && sd_ty()(m_new(c, raw)->Some_0.code) implies sd_ty()(c) by {
        if 52 <= c[0] <= 57 { let m = m_new(c, raw)->Some_0; thm_m_new_wf(c, raw); l_msz(m.code); }
    }
}
// the public key says of itself what was asked for
pub proof fn thm_signer_transferable(m: MV, tr: bool)
    requires t_wf(m, sd_ty()), sn_verfer(m, tr).is_some()
    ensures m_nontrans(sn_verfer(m, tr)->Some_0.code) == !tr
{ l_sd(m); let c = sn_vk(sn_su(m), tr); if tr && sn_su(m) != 0 { assert(c[3] == 66 || c[3] == 74); } if tr && sn_su(m) == 0 { assert(c[0] == 68); } }
