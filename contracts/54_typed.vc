@struct cesr::core::verfer::Verfer

@matterimpl cesr::core::verfer::Verfer

@fn cesr::core::verfer::validate_code(code) -> res
ensures
    res.is_ok() == vk_ty()(code@),

@fn cesr::core::verfer::Verfer::new(code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![66u8]), vk_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), vk_ty()),
@entry
    proof { thm_typed(vk_ty(), Some(seq![66u8]), code, raw, qb64b, qb64, qb2); }

@fn cesr::core::verfer::Verfer::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![66u8]), vk_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), vk_ty()),

@fn cesr::core::verfer::Verfer::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(Some(seq![66u8]), vk_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), vk_ty()),

@fn cesr::core::verfer::Verfer::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(Some(seq![66u8]), vk_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), vk_ty()),

@fn cesr::core::verfer::Verfer::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![66u8]), vk_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), vk_ty()),

@fn cesr::core::verfer::Verfer::verify(self, sig, ser) -> res
requires
    t_wf(self.mv(), vk_ty()),
ensures
    v_res(res, s_ver(s_suite(self.mv().code)->Some_0, self.mv().raw, sig@, ser@)),
@entry
    proof { l_vk(self.mv().code); }

@struct cesr::core::cigar::Cigar

@matterimpl cesr::core::cigar::Cigar

@fn cesr::core::cigar::validate_code(code) -> res
ensures
    res.is_ok() == cg_ty()(code@),

@fn cesr::core::cigar::Cigar::new(verfer, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, cg_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), cg_ty()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),
@entry
    proof { thm_typed(cg_ty(), None, code, raw, qb64b, qb64, qb2); }

@fn cesr::core::cigar::Cigar::new_with_raw(raw, verfer, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, cg_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), cg_ty()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::cigar::Cigar::new_with_qb64b(qb64b, verfer) -> res
ensures
    t_res(res, t_new(None, cg_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), cg_ty()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::cigar::Cigar::new_with_qb64(qb64, verfer) -> res
ensures
    t_res(res, t_new(None, cg_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), cg_ty()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::cigar::Cigar::new_with_qb2(qb2, verfer) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, cg_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), cg_ty()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::cigar::Cigar::verfer(self) -> res
ensures
    res == self.verfer,

@fn cesr::core::cigar::Cigar::set_verfer(self, verfer)
ensures
    final(self).verfer == *verfer, final(self).mv() == old(self).mv(),

@struct cesr::core::siger::Siger

@indexerimpl cesr::core::siger::Siger

@fn cesr::core::siger::validate_code(code) -> res
ensures
    res.is_ok() == sg_ty(code@),
@entry
    proof { let c = code@; assert(c.len() == 1 ==> c =~= seq![c[0]]); assert(c.len() == 2 ==> c =~= seq![c[0], c[1]]); }

@fn cesr::core::siger::Siger::new(verfer, index, ondex, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    si_res(res, sg_only(i_in(oss(code), if index.is_some() { index->Some_0 as int } else { 0 }, oint(ondex), osq(raw), osq(qb64b), oss(qb64), osq(qb2)))),
    res.is_ok() ==> sg_ty(res->Ok_0.iv().code) && i_wf(res->Ok_0.iv()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),
@entry
    proof { thm_siger(oss(code), if index.is_some() { index->Some_0 as int } else { 0 }, oint(ondex), osq(raw), osq(qb64b), oss(qb64), osq(qb2)); }

@fn cesr::core::siger::Siger::new_with_raw(raw, verfer, index, ondex, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    si_res(res, sg_only(i_in(oss(code), if index.is_some() { index->Some_0 as int } else { 0 }, oint(ondex), Some(raw@), None, None, None))),
    res.is_ok() ==> sg_ty(res->Ok_0.iv().code) && i_wf(res->Ok_0.iv()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::siger::Siger::new_with_qb64b(qb64b, verfer) -> res
ensures
    si_res(res, sg_only(i_in(None, 0, None, None, Some(qb64b@), None, None))),
    res.is_ok() ==> sg_ty(res->Ok_0.iv().code) && i_wf(res->Ok_0.iv()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::siger::Siger::new_with_qb64(qb64, verfer) -> res
ensures
    si_res(res, sg_only(i_in(None, 0, None, None, None, Some(qb64@), None))),
    res.is_ok() ==> sg_ty(res->Ok_0.iv().code) && i_wf(res->Ok_0.iv()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::siger::Siger::new_with_qb2(qb2, verfer) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    si_res(res, sg_only(i_in(None, 0, None, None, None, None, Some(qb2@)))),
    res.is_ok() ==> sg_ty(res->Ok_0.iv().code) && i_wf(res->Ok_0.iv()) && (verfer.is_some() ==> res->Ok_0.verfer == *verfer->Some_0),

@fn cesr::core::siger::Siger::verfer(self) -> res
ensures
    res == self.verfer,

@fn cesr::core::siger::Siger::set_verfer(self, verfer)
ensures
    final(self).verfer == *verfer, final(self).iv() == old(self).iv(),

@struct cesr::core::dater::Dater

@matterimpl cesr::core::dater::Dater

@fn cesr::core::dater::validate_code(code) -> res
ensures
    res.is_ok() == da_ty()(code@),

@fn cesr::core::dater::iso_8601_to_b64(dts) -> res
ensures
    res@ == da_enc(dts@),

@fn cesr::core::dater::b64_to_iso_8601(dts) -> res
ensures
    res@ == da_dec(dts@),

@fn cesr::core::dater::now_as_iso8601() -> res
@trusted the system clock: chrono formats the current time
ensures
    da_profile(res@),

@fn cesr::core::dater::now_as_b64() -> res
ensures
    exists|s: Seq<u8>| da_profile(s) && res@ == da_enc(s),

@fn cesr::core::dater::Dater::new(dts, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    !any_in(raw, qb64b, qb64, qb2) && dts.is_some() ==> t_res(res, da_given(dts->Some_0@)),
    !any_in(raw, qb64b, qb64, qb2) && dts.is_none() ==> res.is_ok() && da_profile(da_dts(res->Ok_0.mv())),
    any_in(raw, qb64b, qb64, qb2) ==> t_res(res, t_new(Some(seq![49u8, 65u8, 65u8, 71u8]), da_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),
@entry
    proof { thm_typed(da_ty(), Some(seq![49u8, 65u8, 65u8, 71u8]), code, raw, qb64b, qb64, qb2); l_sz_tab(seq![49u8, 65u8, 65u8, 71u8]); if dts.is_some() { l_da_given(dts->Some_0@); }
        assert forall|s: Seq<u8>| da_profile(s) implies da_given(s).is_some() && da_dts(da_given(s)->Some_0) == s && t_wf(da_given(s)->Some_0, da_ty()) && (#[trigger] da_enc(s)).len() == 32 by { thm_dater(s); l_da_rt(s); } }

@fn cesr::core::dater::Dater::new_with_dts(dts, code) -> res
ensures
    t_res(res, da_given(dts@)), res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),

@fn cesr::core::dater::Dater::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![49u8, 65u8, 65u8, 71u8]), da_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),

@fn cesr::core::dater::Dater::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(Some(seq![49u8, 65u8, 65u8, 71u8]), da_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),

@fn cesr::core::dater::Dater::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(Some(seq![49u8, 65u8, 65u8, 71u8]), da_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),

@fn cesr::core::dater::Dater::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![49u8, 65u8, 65u8, 71u8]), da_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), da_ty()),

@fn cesr::core::dater::Dater::dts(self) -> res
requires
    t_wf(self.mv(), da_ty()),
ensures
    res.is_ok(), res->Ok_0@ == da_dts(self.mv()),
@entry
    broadcast use ax_str_bnd;
    proof { l_sz_tab(seq![49u8, 65u8, 65u8, 71u8]); l_m_both(self.mv()); l_m_ascii(self.mv()); }

@fn cesr::core::dater::Dater::dtsb(self) -> res
requires
    t_wf(self.mv(), da_ty()),
ensures
    res.is_ok(), res->Ok_0@ == da_dts(self.mv()),

@struct cesr::core::diger::Diger

@matterimpl cesr::core::diger::Diger

@fn cesr::core::diger::validate_code(code) -> res
ensures
    res.is_ok() == dg_ty()(code@),

@fn cesr::core::diger::Diger::new(ser, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    ser.is_none() || m_in(oss(code), osq(raw), osq(qb64b), oss(qb64), osq(qb2)).is_some() ==> t_res(res, t_new(None, dg_ty(), code, raw, qb64b, qb64, qb2)),
    ser.is_some() && m_in(oss(code), osq(raw), osq(qb64b), oss(qb64), osq(qb2)).is_none() ==> t_res(res, dg_given(oss(code), ser->Some_0@)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),
@entry
    broadcast use ax_hash;
    proof { thm_typed(dg_ty(), None, code, raw, qb64b, qb64, qb2); if ser.is_some() { l_dg_given(oss(code), ser->Some_0@); } }

@fn cesr::core::diger::Diger::new_with_ser(ser, code) -> res
ensures
    t_res(res, dg_given(oss(code), ser@)), res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::diger::Diger::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, dg_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::diger::Diger::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(None, dg_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::diger::Diger::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(None, dg_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::diger::Diger::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, dg_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::diger::Diger::verify(self, ser) -> res
ensures
    res.is_ok() == h_alg(self.mv().code).is_some(), res.is_ok() ==> res->Ok_0 == dg_ver(self.mv(), ser@),

@fn cesr::core::diger::Diger::compare(self, ser, dig, diger) -> res
requires
    t_wf(self.mv(), dg_ty()),
    diger.is_some() ==> t_wf(diger->Some_0.mv(), dg_ty()),
ensures
    dig.is_some() ==> dg_cmp_dig(res, self.mv(), ser@, dig->Some_0@),
    dig.is_none() && diger.is_some() ==> res.is_ok() && res->Ok_0 == dg_same(self.mv(), diger->Some_0.mv(), ser@),
    dig.is_none() && diger.is_none() ==> res.is_err(),

@fn cesr::core::diger::Diger::compare_dig(self, ser, dig) -> res
requires
    t_wf(self.mv(), dg_ty()),
ensures
    dg_cmp_dig(res, self.mv(), ser@, dig@),
@entry
    proof { l_dg(self.mv()); l_m_both(self.mv()); l_m_ascii(self.mv()); let t = m_text(self.mv()); assert(t.is_prefix_of(t)); thm_m_text_roundtrip(self.mv(), t); }

@fn cesr::core::diger::Diger::compare_diger(self, ser, diger) -> res
requires
    t_wf(self.mv(), dg_ty()),
    t_wf(diger.mv(), dg_ty()),
ensures
    res.is_ok(), res->Ok_0 == dg_same(self.mv(), diger.mv(), ser@),
@entry
    proof { l_dg(self.mv()); l_dg(diger.mv()); l_m_text_inj(self.mv(), diger.mv()); }

