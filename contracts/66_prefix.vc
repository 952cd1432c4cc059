@struct prefexing::prefixer::Prefixer

@matterimpl prefexing::prefixer::Prefixer

@fn prefexing::prefixer::validate_code(code) -> res
ensures
    res.is_ok() == pf_ty()(code@),

@fn prefexing::prefixer::is_empty(field) -> res
ensures
    res.is_ok() == (vw(*field) is Arr || vw(*field) is Str), res.is_ok() ==> res->Ok_0 == pf_mt(vw(*field)),
@entry
    broadcast use {l_vw_arr};
    proof { match field { crate::data::Value::Array(a) => {} crate::data::Value::Number(n) => { n.l_nv(); } _ => {} } assert(vw(*field) is Arr == (*field is Array)); }

@fn prefexing::prefixer::derive(ked, code) -> res
requires
    jsn(pf_fill(vw(*ked), code@)).len() <= 0xffff_ffff,
ensures
    res.is_ok() == pf_derive(vw(*ked), code@).is_some(), res.is_ok() ==> res->Ok_0.0@ == pf_derive(vw(*ked), code@)->Some_0 && res->Ok_0.1@ == code@,
@entry
    proof { l_pf_ty(code@); }

@fn prefexing::prefixer::derive_nontransferable(ked, code) -> res
requires
    vw(*ked) is Obj,
ensures
    ({ let d = vw(*ked); let e = if pf_void(d, lab_n()) && pf_void(d, lab_b()) && pf_void(d, lab_a()) { pf_basic(d, code@) } else { None };
        res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.0@ == e->Some_0 && res->Ok_0.1@ == code@) }),
@entry
    broadcast use {l_vw_arr};

@fn prefexing::prefixer::derive_transferable(ked, code) -> res
requires
    vw(*ked) is Obj,
ensures
    ({ let e = pf_basic(vw(*ked), code@); res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.0@ == e->Some_0 && res->Ok_0.1@ == code@) }),
@entry
    broadcast use {l_vw_arr};

@fn prefexing::prefixer::derive_digest(ked, code) -> res
requires
    vw(*ked) is Obj, h_alg(code@).is_some(), jsn(pf_fill(vw(*ked), code@)).len() <= 0xffff_ffff,
ensures
    ({ let e = pf_dig(vw(*ked), code@); res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.0@ == e->Some_0 && res->Ok_0.1@ == code@) }),
@entry
    proof { l_dg_codes(code@); if sz_of(pf_fill(vw(*ked), code@), None).is_some() { thm_sizeify(pf_fill(vw(*ked), code@), None); } }

@fn prefexing::prefixer::verify_nontransferable(ked, pre, prefixed) -> res
requires
    vw(*ked) is Obj,
ensures
    ({ let d = vw(*ked); let e = pf_key(d) == Some(pre@) && (prefixed ==> d_has(d, lab_i()) && d_get(d, lab_i()) == DV::Str(pre@)) && (d_has(d, lab_n()) ==> !pf_commits(d_get(d, lab_n())));
        (res.is_ok() ==> res->Ok_0 == e) && (res.is_err() ==> !e) }),

@fn prefexing::prefixer::verify_transferable(ked, pre, prefixed) -> res
requires
    vw(*ked) is Obj,
ensures
    ({ let d = vw(*ked); let e = pf_key(d) == Some(pre@) && (prefixed ==> d_has(d, lab_i()) && d_get(d, lab_i()) == DV::Str(pre@));
        (res.is_ok() ==> res->Ok_0 == e) && (res.is_err() ==> !e) }),

@fn prefexing::prefixer::verify_digest(ked, pre, prefixed, code) -> res
requires
    vw(*ked) is Obj, h_alg(code@).is_some(), jsn(pf_fill(vw(*ked), code@)).len() <= 0xffff_ffff,
ensures
    ({ let d = vw(*ked); let e = pf_dig(d, code@).is_some() && pre@ == m_text(pf_mv(code@, pf_dig(d, code@)->Some_0)) && (prefixed ==> d_has(d, lab_i()) && d_get(d, lab_i()) == DV::Str(pre@));
        (res.is_ok() ==> res->Ok_0 == e) && (res.is_err() ==> !e) }),
@entry
    broadcast use ax_hash;
    proof { if pf_dig(vw(*ked), code@).is_some() { let raw = pf_dig(vw(*ked), code@)->Some_0; l_dg_new(code@, raw); l_dg(pf_mv(code@, raw)); } }

@fn prefexing::prefixer::Prefixer::new(ked, allows, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
    ked.is_some() && !any_in(raw, qb64b, qb64, qb2) ==> pf_fits(vw(*ked->Some_0), oss(code)),
ensures
    any_in(raw, qb64b, qb64, qb2) ==> t_res(res, if code.is_none() || pf_ty()(code->Some_0@) { t_new(None, pf_ty(), code, raw, qb64b, qb64, qb2) } else { None }),
    !any_in(raw, qb64b, qb64, qb2) ==> t_res(res, if ked.is_some() { pf_of(vw(*ked->Some_0), ign(allows), oss(code)) } else { None }),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),
@entry
    proof { thm_typed(pf_ty(), None, code, raw, qb64b, qb64, qb2); if ked.is_some() { let d = vw(*ked->Some_0); let c = pf_code(d, oss(code)); if c.is_some() { l_pf_ty(c->Some_0); l_pf_derive(d, c->Some_0); } } }

@fn prefexing::prefixer::Prefixer::new_with_ked(ked, allows, code) -> res
requires
    pf_fits(vw(*ked), oss(code)),
ensures
    t_res(res, pf_of(vw(*ked), ign(allows), oss(code))), res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),

@fn prefexing::prefixer::Prefixer::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, if code.is_none() || pf_ty()(code->Some_0@) { t_new(None, pf_ty(), code, Some(raw), None, None, None) } else { None }),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),

@fn prefexing::prefixer::Prefixer::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(None, pf_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),

@fn prefexing::prefixer::Prefixer::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(None, pf_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),

@fn prefexing::prefixer::Prefixer::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, pf_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), pf_ty()),

@fn prefexing::prefixer::Prefixer::verify(self, ked, prefixed) -> res
requires
    t_wf(self.mv(), pf_ty()), jsn(pf_fill(vw(*ked), self.mv().code)).len() <= 0xffff_ffff,
ensures
    res.is_ok() ==> res->Ok_0 == pf_verify(self.mv(), vw(*ked), prefixed == Some(true)),
    res.is_err() ==> !pf_verify(self.mv(), vw(*ked), prefixed == Some(true)),
@entry
    broadcast use ax_hash;
    proof { let m = self.mv(); l_pf(m); l_pf_ty(m.code); if h_alg(m.code).is_some() && pf_dig(vw(*ked), m.code).is_some() { let r = pf_dig(vw(*ked), m.code)->Some_0; l_dg_new(m.code, r); l_m_text_inj(m, pf_mv(m.code, r)); } }
