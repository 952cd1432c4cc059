@struct cesr::core::saider::Saider

@matterimpl cesr::core::saider::Saider

@fn cesr::core::saider::validate_code(code) -> res
ensures
    res.is_ok() == dg_ty()(code@),

@fn cesr::core::saider::serialize(sad, kind) -> res
ensures
    res.is_ok() == sa_ser(vw(*sad), ostr(kind)).is_some(), res.is_ok() ==> res->Ok_0@ == sa_ser(vw(*sad), ostr(kind))->Some_0,

@fn cesr::core::saider::derive(sad, code, kind, label, ignore) -> res
requires
    jsn(sa_fill(vw(*sad), sa_label(label), sa_code(oss(code)))).len() <= 0xffff_ffff,
ensures
    match sa_derive(vw(*sad), sa_code(oss(code)), ostr(kind), sa_label(label), ign(ignore)) {
        Some((raw, d2)) => res.is_ok() && res->Ok_0.0@ == raw && vw(res->Ok_0.1) == d2, None => res.is_err() },
@entry
    broadcast use {ax_hash, ax_valid_ascii};
    proof { let c = sa_code(oss(code)); let d1 = sa_fill(vw(*sad), sa_label(label), c); if h_alg(c).is_some() { l_dg_codes(c); } l_o_set(vw(*sad)->Obj_0, sa_label(label), DV::Str(dummy(c)), sa_label(label));
        if d_has(d1, lab_v()) && sz_of(d1, ostr(kind)).is_some() { thm_sizeify(d1, ostr(kind)); } }
@loop 0 vars(map)
    map@ == o_dels(vw(sad)->Obj_0, ign(ignore).take($k as int)), $it@ == refs(ign(ignore)),
@loop 0 after
    proof { assert(ign(ignore).take($it@.len() as int) =~= ign(ignore)); }
@loop 0 end
    proof { assert(ign(ignore).take($k as int).drop_last() =~= ign(ignore).take($k - 1)); }

@fn cesr::core::saider::Saider::new(sad, label, kind, ignore, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
    sad.is_some() && (raw.is_none() || code.is_none()) ==> sa_fits(vw(*sad->Some_0), oss(code), sa_label(label)),
ensures
    sad.is_none() || (raw.is_some() && code.is_some()) ==> t_res(res, t_new(None, dg_ty(), code, raw, qb64b, qb64, qb2)),
    sad.is_some() && (raw.is_none() || code.is_none()) ==> t_res(res, sa_of(vw(*sad->Some_0), oss(code), ostr(kind), sa_label(label), ign(ignore))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),
@entry
    broadcast use ax_hash;
    proof { thm_typed(dg_ty(), None, code, raw, qb64b, qb64, qb2); if raw.is_some() && code.is_some() { l_dg_code_of(code->Some_0@, raw->Some_0@); } if sad.is_some() { l_sa_of(vw(*sad->Some_0), oss(code), ostr(kind), sa_label(label), ign(ignore)); } }

@fn cesr::core::saider::Saider::saidify(sad, code, kind, label, ignore) -> res
requires
    jsn(sa_fill(vw(*sad), sa_label(label), sa_code(oss(code)))).len() <= 0xffff_ffff,
ensures
    match sa_made(vw(*sad), sa_code(oss(code)), ostr(kind), sa_label(label), ign(ignore)) {
        Some((m, d3)) => res.is_ok() && res->Ok_0.0.mv() == m && vw(res->Ok_0.1) == d3, None => res.is_err() },
    res.is_ok() ==> t_wf(res->Ok_0.0.mv(), dg_ty()),
@entry
    proof { let d = vw(*sad); let c = sa_code(oss(code)); let l = sa_label(label); if sa_made(d, c, ostr(kind), l, ign(ignore)).is_some() { let m = sa_made(d, c, ostr(kind), l, ign(ignore))->Some_0.0; l_sa_again(d, c, ostr(kind), l, ign(ignore), DV::Str(m_text(m))); thm_saidify(d, c, ostr(kind), l, ign(ignore)); l_dg(m); } }

@fn cesr::core::saider::Saider::verify(self, sad, prefixed, versioned, kind, label, ignore) -> res
requires
    t_wf(self.mv(), dg_ty()),
    jsn(sa_fill(vw(*sad), sa_label(label), self.mv().code)).len() <= 0xffff_ffff,
ensures
    res.is_ok() ==> res->Ok_0 == sa_verify(self.mv(), vw(*sad), prefixed == Some(true), versioned != Some(false), ostr(kind), sa_label(label), ign(ignore)),
    res.is_err() ==> !sa_verify(self.mv(), vw(*sad), prefixed == Some(true), versioned != Some(false), ostr(kind), sa_label(label), ign(ignore)),
@entry
    broadcast use ax_hash;
    proof { let d = vw(*sad); let c = self.mv().code; let l = sa_label(label); l_dg(self.mv());
        if sa_derive(d, c, ostr(kind), l, ign(ignore)).is_some() { let raw = sa_derive(d, c, ostr(kind), l, ign(ignore))->Some_0.0; l_sa_again(d, c, ostr(kind), l, ign(ignore), DV::Null); l_dg_new(c, raw); l_dg(sa_mv(c, raw)); l_m_text_inj(self.mv(), sa_mv(c, raw)); } }

@fn cesr::core::saider::Saider::new_with_sad(sad, label, kind, ignore, code) -> res
requires
    sa_fits(vw(*sad), oss(code), sa_label(label)),
ensures
    t_res(res, sa_of(vw(*sad), oss(code), ostr(kind), sa_label(label), ign(ignore))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::saider::Saider::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, dg_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::saider::Saider::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(None, dg_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::saider::Saider::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(None, dg_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),

@fn cesr::core::saider::Saider::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, dg_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), dg_ty()),
