@struct cesr::core::number::Number

@matterimpl cesr::core::number::Number

@fn cesr::core::number::tables::Codex::has_code(code) -> res
ensures
    res == n_ty()(code@),

@fn cesr::core::number::validate_code(code) -> res
ensures
    res.is_ok() == n_ty()(code@),

@fn cesr::core::number::Number::new(num, numh, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    !any_in(raw, qb64b, qb64, qb2) ==> res.is_ok() == n_given(num, numh).is_some() && (res.is_ok() ==> res->Ok_0.mv() == n_mv(n_given(num, numh)->Some_0)),
    any_in(raw, qb64b, qb64, qb2) ==> ({ let e = t_new(Some(seq![77u8]), n_ty(), code, raw, qb64b, qb64, qb2);
        (res.is_ok() ==> e.is_some() && res->Ok_0.mv() == e->Some_0) && (e.is_some() && (code.is_none() || n_ty()(code->Some_0@)) ==> res.is_ok()) }),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), n_ty()),
@entry
    broadcast use {l_pow256a, l_p_hex_bounds};
    proof { thm_typed(n_ty(), Some(seq![77u8]), code, raw, qb64b, qb64, qb2); l_code4(); let g = n_given(num, numh); if g.is_some() { l_n_new(g->Some_0); } }

@fn cesr::core::number::Number::new_with_num(num) -> res
ensures
    res.is_ok(), res->Ok_0.mv() == n_mv(num as int), t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::number::Number::new_with_numh(numh) -> res
ensures
    res.is_ok() == n_given(None, Some(numh)).is_some(), res.is_ok() ==> res->Ok_0.mv() == n_mv(n_given(None, Some(numh))->Some_0) && t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::number::Number::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    res.is_ok() ==> m_is(t_new(Some(seq![77u8]), n_ty(), code, Some(raw), None, None, None), true, res->Ok_0.mv()) && t_wf(res->Ok_0.mv(), n_ty()),
    t_new(Some(seq![77u8]), n_ty(), code, Some(raw), None, None, None).is_some() && (code.is_none() || n_ty()(code->Some_0@)) ==> res.is_ok(),

@fn cesr::core::number::Number::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(None, n_ty(), None, None, Some(qb64b), None, None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::number::Number::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(None, n_ty(), None, None, None, Some(qb64), None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::number::Number::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, n_ty(), None, None, None, None, Some(qb2))), res.is_ok() ==> t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::number::Number::num(self) -> res
requires
    t_wf(self.mv(), n_ty()),
ensures
    res.is_ok(), res->Ok_0 as int == be_int(self.mv().raw),
@entry
    proof { l_n_ty(self.mv()); l_code4(); }

@fn cesr::core::number::Number::numh(self) -> res
requires
    t_wf(self.mv(), n_ty()),
ensures
    res.is_ok(), res->Ok_0@ == hex_digits(be_int(self.mv().raw) as nat),

@fn cesr::core::number::Number::positive(self) -> res
requires
    t_wf(self.mv(), n_ty()),
ensures
    res.is_ok(), res->Ok_0 == (be_int(self.mv().raw) > 0),

@struct cesr::core::seqner::Seqner

@matterimpl cesr::core::seqner::Seqner

@fn cesr::core::seqner::validate_code(code) -> res
ensures
    res.is_ok() == sq_ty()(code@),

@fn cesr::core::seqner::Seqner::new(sn, snh, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    !any_in(raw, qb64b, qb64, qb2) ==> (res.is_ok() ==> sq_given(sn, snh).is_some() && res->Ok_0.mv() == sq_mv(sq_given(sn, snh)->Some_0))
        && (sq_given(sn, snh).is_some() && (code.is_none() || sq_ty()(code->Some_0@)) ==> res.is_ok()),
    any_in(raw, qb64b, qb64, qb2) ==> t_res(res, t_new(Some(seq![48u8, 65u8]), sq_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sq_ty()),
@entry
    broadcast use {l_p_hex_bounds};
    proof { thm_typed(sq_ty(), Some(seq![48u8, 65u8]), code, raw, qb64b, qb64, qb2); l_code4(); let g = sq_given(sn, snh); if g.is_some() { l_sq_new(g->Some_0); if code.is_some() && m_new(code->Some_0@, be_enc(g->Some_0, 16)).is_some() { thm_m_new_wf(code->Some_0@, be_enc(g->Some_0, 16)); } } }

@fn cesr::core::seqner::Seqner::new_with_sn(sn) -> res
ensures
    res.is_ok(), res->Ok_0.mv() == sq_mv(sn as int), t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::new_with_snh(snh) -> res
ensures
    res.is_ok() == sq_given(None, Some(snh)).is_some(), res.is_ok() ==> res->Ok_0.mv() == sq_mv(sq_given(None, Some(snh))->Some_0) && t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![48u8, 65u8]), sq_ty(), code, Some(raw), None, None, None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(None, sq_ty(), None, None, Some(qb64b), None, None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(None, sq_ty(), None, None, None, Some(qb64), None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, sq_ty(), None, None, None, None, Some(qb2))), res.is_ok() ==> t_wf(res->Ok_0.mv(), sq_ty()),

@fn cesr::core::seqner::Seqner::sn(self) -> res
requires
    t_wf(self.mv(), sq_ty()),
ensures
    res.is_ok(), res->Ok_0 as int == be_int(self.mv().raw),
@entry
    broadcast use ax_arr_of;
    proof { l_sq(self.mv()); assert(self.mv().raw.subrange(0, 16) =~= self.mv().raw); }

@fn cesr::core::seqner::Seqner::snh(self) -> res
requires
    t_wf(self.mv(), sq_ty()),
ensures
    res.is_ok(), res->Ok_0@ == hex_digits(be_int(self.mv().raw) as nat),
