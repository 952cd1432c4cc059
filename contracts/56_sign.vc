@struct cesr::core::salter::Salter

@matterimpl cesr::core::salter::Salter

@fn cesr::core::salter::validate_code(code) -> res
ensures
    res.is_ok() == sl_ty()(code@),

@fn cesr::core::salter::Salter::new(tier, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    any_in(raw, qb64b, qb64, qb2) ==> ({ let e = t_new(Some(seq![48u8, 65u8]), sl_ty(), code, raw, qb64b, qb64, qb2);
        (res.is_ok() ==> e.is_some() && res->Ok_0.mv() == e->Some_0) && (e.is_some() && (code.is_none() || sl_ty()(code->Some_0@)) ==> res.is_ok()) }),
    !any_in(raw, qb64b, qb64, qb2) ==> res.is_ok() == (code.is_none() || sl_ty()(code->Some_0@)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,
@entry
    proof { thm_typed(sl_ty(), Some(seq![48u8, 65u8]), code, raw, qb64b, qb64, qb2); l_sz_tab(seq![48u8, 65u8]); }

@fn cesr::core::salter::Salter::new_with_defaults(tier) -> res
ensures
    res.is_ok(), t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,

@fn cesr::core::salter::Salter::new_with_raw(raw, code, tier) -> res
requires
    raw@.len() < MAXLEN,
ensures
    code.is_none() || sl_ty()(code->Some_0@) ==> t_res(res, t_new(Some(seq![48u8, 65u8]), sl_ty(), code, Some(raw), None, None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,

@fn cesr::core::salter::Salter::new_with_qb64b(qb64b, tier) -> res
ensures
    t_res(res, t_new(None, sl_ty(), None, None, Some(qb64b), None, None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,

@fn cesr::core::salter::Salter::new_with_qb64(qb64, tier) -> res
ensures
    t_res(res, t_new(None, sl_ty(), None, None, None, Some(qb64), None)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,

@fn cesr::core::salter::Salter::new_with_qb2(qb2, tier) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(None, sl_ty(), None, None, None, None, Some(qb2))),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), sl_ty()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.mv().raw.len() == 16,

@fn cesr::core::salter::Salter::stretch(self, size, path, tier, temp) -> res
ensures
    ({ let e = a_stretch(s_or(path, Seq::empty()), self.mv().raw, if size.is_some() { size->Some_0 as int } else { 32 }, sl_tier(self.tier@, tier, temp));
        res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0@ == e->Some_0) }),

@fn cesr::core::salter::Salter::tier(self) -> res
ensures
    res@ == self.tier@,

@fn cesr::core::salter::Salter::signer(self, code, transferable, path, tier, temp) -> res
ensures
    sn_res(res, sl_signer(self.mv().raw, self.tier@, code, s_or(path, Seq::empty()), tier, temp), b_or(transferable, true)),
@entry
    broadcast use {ax_argon, l_msz};
    proof { let c = s_or(code, seq![65u8]); if sd_ty()(c) { l_sd_new(c, zeros(32)); match a_stretch(s_or(path, Seq::empty()), self.mv().raw, 32, sl_tier(self.tier@, tier, temp)) { Some(seed) => { l_sd_new(c, seed); }, None => {} } } else { l_m_new_code(c); } }

@fn cesr::core::salter::Salter::signers(self, count, start, path, code, transferable, tier, temp) -> res
requires
    n_or(count, 1) + n_or(start, 0) <= usize::MAX,
ensures
    res.is_ok() ==> res->Ok_0@.len() == n_or(count, 1)
        && forall|i: int| 0 <= i < n_or(count, 1) ==> sn_is(#[trigger] res->Ok_0@[i], sl_nth(self.mv().raw, self.tier@, code, path, tier, temp, i + n_or(start, 0)), b_or(transferable, true)),
    res.is_err() ==> exists|n: int| n_or(start, 0) <= n < n_or(start, 0) + n_or(count, 1) && ({ let e = #[trigger] sl_nth(self.mv().raw, self.tier@, code, path, tier, temp, n);
        e.is_none() || sn_verfer(e->Some_0, b_or(transferable, true)).is_none() }),
@entry
    let ghost path0 = path;
@loop 0 vars(signers, count, start, path)
    invariant
        signers@.len() == $k, path@ == s_or(path0, Seq::empty()),
        forall|i: int| 0 <= i < $k ==> sn_is(#[trigger] signers@[i], sl_nth(self.mv().raw, self.tier@, code, path0, tier, temp, i + start), b_or(transferable, true)),
@loop 0 start
    proof { let ghost e = sl_nth(self.mv().raw, self.tier@, code, path0, tier, temp, $k - 1 + start); }

@struct signing::signer::Signer

@matterimpl signing::signer::Signer

@fn signing::signer::validate_code(code) -> res
ensures
    res.is_ok() == sd_ty()(code@),

@fn signing::signer::derive_verfer(code, private_key, transferable) -> res
requires
    sd_ty()(code@) && s_suite(code@) == Some(0int) ==> private_key@.len() == 32,
ensures
    sd_ty()(code@) && private_key@.len() == 32 ==> t_res(res, sn_verfer(MV { code: code@, size: 0, raw: private_key@ }, transferable)),
    !sd_ty()(code@) ==> res.is_err(),
@entry
    broadcast use ax_pub;
    proof { if sd_ty()(code@) && private_key@.len() == 32 { l_sd_new(code@, private_key@); l_sn_pub(MV { code: code@, size: 0, raw: private_key@ }); } }

@fn signing::signer::Signer::new(transferable, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    any_in(raw, qb64b, qb64, qb2) ==> sn_res(res, sn_in(code, raw, qb64b, qb64, qb2), b_or(transferable, true)),
    !any_in(raw, qb64b, qb64, qb2) ==> res.is_ok() == sd_ty()(s_or(code, seq![65u8])) && (res.is_ok() ==> res->Ok_0.mv().code == s_or(code, seq![65u8]) && sn_is(res->Ok_0, Some(res->Ok_0.mv()), b_or(transferable, true))),
@entry
    broadcast use ax_sk;
    proof { thm_typed(sd_ty(), if qb64b.is_none() && qb64.is_none() && qb2.is_none() { Some(seq![65u8]) } else { None }, code, raw, qb64b, qb64, qb2);
        let e = sn_in(code, raw, qb64b, qb64, qb2); if e.is_some() { l_sd(e->Some_0); l_sn_pub(e->Some_0); } l_m_new_code(s_or(code, seq![65u8]));
        if sd_ty()(s_or(code, seq![65u8])) { let c = s_or(code, seq![65u8]);
            assert forall|k: Seq<u8>| #[trigger] x_sk_ok(s_suite(c)->Some_0, k) implies m_new(c, k) == Some(MV { code: c, size: 0, raw: k }) && t_wf(MV { code: c, size: 0, raw: k }, sd_ty()) && sn_verfer(MV { code: c, size: 0, raw: k }, b_or(transferable, true)).is_some() by { l_sd_new(c, k); l_sn_pub(MV { code: c, size: 0, raw: k }); } } }

@fn signing::signer::Signer::new_with_defaults(transferable, code) -> res
ensures
    res.is_ok() == sd_ty()(s_or(code, seq![65u8])),
    res.is_ok() ==> res->Ok_0.mv().code == s_or(code, seq![65u8]) && sn_is(res->Ok_0, Some(res->Ok_0.mv()), b_or(transferable, true)),

@fn signing::signer::Signer::new_with_raw(raw, transferable, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    sn_res(res, sn_in(code, Some(raw), None, None, None), b_or(transferable, true)),

@fn signing::signer::Signer::new_with_qb64b(qb64b, transferable) -> res
ensures
    sn_res(res, sn_in(None, None, Some(qb64b), None, None), b_or(transferable, true)),

@fn signing::signer::Signer::new_with_qb64(qb64, transferable) -> res
ensures
    sn_res(res, sn_in(None, None, None, Some(qb64), None), b_or(transferable, true)),

@fn signing::signer::Signer::new_with_qb2(qb2, transferable) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    sn_res(res, sn_in(None, None, None, None, Some(qb2)), b_or(transferable, true)),

@fn signing::signer::Signer::verfer(self) -> res
ensures
    res == self.verfer,

@fn signing::signer::Signer::derive_and_assign_verfer(self, transferable) -> res
requires
    t_wf(old(self).mv(), sd_ty()),
ensures
    final(self).mv() == old(self).mv(),
    res.is_ok() == sn_verfer(old(self).mv(), transferable).is_some(),
    res.is_ok() ==> Some(final(self).verfer.mv()) == sn_verfer(old(self).mv(), transferable),
@entry
    proof { l_sd(self.mv()); assert(self.mv() == MV { code: self.mv().code, size: 0, raw: self.mv().raw }); }

@fn signing::signer::Signer::sign_unindexed(self, ser) -> res
requires
    sn_ok(self.mv(), self.verfer.mv()),
ensures
    res.is_ok(),
    x_signed(sn_su(self.mv()), self.mv().raw, ser@, res->Ok_0.mv().raw),
    res->Ok_0.mv().code == sn_ccode(sn_su(self.mv())), t_wf(res->Ok_0.mv(), cg_ty()), res->Ok_0.verfer == self.verfer,
@entry
    broadcast use ax_signed;
    proof { l_sd(self.mv()); l_sn_pub(self.mv()); let su = sn_su(self.mv());
        assert forall|sig: Seq<u8>| #[trigger] x_signed(su, self.mv().raw, ser@, sig) implies m_new(sn_ccode(su), sig) == Some(MV { code: sn_ccode(su), size: 0, raw: sig }) && cg_ty()(sn_ccode(su)) by { l_cg_new(su, sig); } }

@fn signing::signer::Signer::sign_indexed(self, ser, only, index, ondex) -> res
requires
    sn_ok(self.mv(), self.verfer.mv()),
ensures
    ({ let od = if ondex.is_some() { ondex->Some_0 as int } else { index as int };
        res.is_ok() == (index < 4096 && (only || od < 4096))
        && (res.is_ok() ==> x_signed(sn_su(self.mv()), self.mv().raw, ser@, res->Ok_0.iv().raw) && i_wf(res->Ok_0.iv())
            && Some(res->Ok_0.iv()) == sn_iv(sn_su(self.mv()), only, index as int, od, res->Ok_0.iv().raw) && res->Ok_0.verfer == self.verfer) }),
@entry
    broadcast use ax_signed;
    proof { l_sd(self.mv()); l_sn_pub(self.mv()); let su = sn_su(self.mv()); let od = if ondex.is_some() { ondex->Some_0 as int } else { index as int };
        assert forall|sig: Seq<u8>| #[trigger] x_signed(su, self.mv().raw, ser@, sig) implies i_new(sn_icode(su, only, index as int, od), sig, index as int, if only { None } else { Some(od) }) == sn_iv(su, only, index as int, od, sig) && sg_ty(sn_icode(su, only, index as int, od)) by { l_sn_iv(su, only, index as int, od, sig); } }
