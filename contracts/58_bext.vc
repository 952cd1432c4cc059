@struct cesr::core::bexter::Bexter

@trait cesr::core::bexter::Bext

@fn cesr::core::bexter::Bext::bext(self) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()),
ensures
    res.is_ok(), res->Ok_0@ == bx_str(self.mv()),
@entry
    broadcast use ax_str_bnd;
    proof { l_bx_wf(self.mv()); }
@after full_raw
    proof { assert(full_raw@ =~= zeros(bx_lead(self.mv()))); }
@after ws
    proof { assert(bext@ == bx_full(self.mv())); assert(bext@.len() > 0 ==> (bext@.subrange(0, 1) == seq![65u8]) == (bext@[0] == 65)) by { if bext@.len() > 0 { assert(bext@.subrange(0, 1) =~= seq![bext@[0]]); assert(seq![bext@[0]][0] == bext@[0]); assert(seq![65u8][0] == 65u8); } } assert(ws == bx_cut(self.mv())); }

@matterimpl cesr::core::bexter::Bexter
@impl cesr::core::bexter::Bexter as Bext

@fn cesr::core::bexter::tables::Codex::has_code(code) -> res
ensures
    res == bx_code(code@),
@entry
    proof { let c = code@; assert(c.len() == 2 ==> c =~= seq![c[0], c[1]]); assert(c.len() == 4 ==> c =~= seq![c[0], c[1], c[2], c[3]]); }

@fn cesr::core::bexter::validate_code(code) -> res
ensures
    res.is_ok() == bx_code(code@),

@fn cesr::core::bexter::rawify(bext) -> res
requires
    all_b64(bext@), bext@.len() < MAXLEN,
ensures
    res.is_ok(), res->Ok_0@ == bx_raw(bext@),
@entry
    proof { l_bx_paw(bext@); }
@after base
    proof {
        assert forall|v: Vec<&Str>| #![trigger views(v@)] v@.len() == ws && (forall|i: int| 0 <= i < ws ==> v@[i]@ == seq![65u8]) implies joined(views(v@), Seq::empty()) == rep(65u8, ws as int) by {
            l_joined_rep(views(v@), 65u8);
        }
        assert(base@ == rep(65u8, ws as int) + bext@);
        let p = bx_paw(bext@);
        assert forall|q: Seq<u8>| #[trigger] b64e(q) == base@ implies q == p by { l_b64e_valid(q); l_b64de(q); }
    }

@fn cesr::core::bexter::Bexter::new(bext, code, raw, qb64b, qb64, qb2) -> res
requires
    bext.is_some() ==> bext->Some_0@.len() < MAXLEN,
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    bext.is_some() ==> t_res(res, bx_given(if code.is_some() { code->Some_0@ } else { seq![52u8, 65u8] }, bext->Some_0@)),
    bext.is_none() ==> t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),
@entry
    broadcast use ax_reb64;
    proof { thm_typed(bx_ty(), Some(seq![52u8, 65u8]), code, raw, qb64b, qb64, qb2); if bext.is_some() { l_bx_given(if code.is_some() { code->Some_0@ } else { seq![52u8, 65u8] }, bext->Some_0@); if all_b64(bext->Some_0@) { l_bx_paw(bext->Some_0@); } } }

@fn cesr::core::bexter::Bexter::new_with_bext(bext) -> res
requires
    bext@.len() < MAXLEN,
ensures
    t_res(res, bx_given(seq![52u8, 65u8], bext@)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn cesr::core::bexter::Bexter::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn cesr::core::bexter::Bexter::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn cesr::core::bexter::Bexter::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn cesr::core::bexter::Bexter::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),
