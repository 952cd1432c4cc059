@struct signify::creating::SaltyCreator

@fn signify::creating::SaltyCreator as Default::default() -> res
ensures
    res.stem@.len() == 0, res.tier@ == t_low(), t_wf(res.salter.mv(), sl_ty()), res.salter.tier@ == t_low(), res.salter.mv().raw.len() == 16,

@fn signify::creating::SaltyCreator::new(salt, stem, tier, salter) -> res
ensures
    salter.is_some() ==> res.is_ok() && res->Ok_0.salter == salter->Some_0 && res->Ok_0.tier@ == s_or(tier, salter->Some_0.tier@),
    salter.is_none() && salt.is_some() ==> ({ let e = t_new(Some(seq![48u8, 65u8]), sl_ty(), None, None, None, salt, None);
        res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.salter.mv() == e->Some_0) }),
    salter.is_none() && salt.is_none() ==> res.is_ok(),
    salter.is_none() && res.is_ok() ==> t_wf(res->Ok_0.salter.mv(), sl_ty()) && res->Ok_0.salter.tier@ == s_or(tier, t_low()) && res->Ok_0.tier@ == s_or(tier, t_low()) && res->Ok_0.salter.mv().raw.len() == 16,
    res.is_ok() ==> res->Ok_0.stem@ == s_or(stem, Seq::empty()),

@fn signify::creating::SaltyCreator::create(self, codes, count, code, pidx, ridx, kidx, stem, transferable, temp) -> res
requires
    codes.is_some() ==> codes->Some_0@.len() < 0x7fff_ffff,
    forall|i: int| 0 <= i < cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])).len() ==>
        cr_ok(cr_key(self.salter.mv().raw, #[trigger] cr_codes(codes, n16(count, 1), s_or(code, seq![65u8]))[i], cr_path(cr_stem(self.stem@, stem, n16(pidx, 0)), n16(ridx, 0), n16(kidx, 0) + i), if temp { t_min() } else { self.tier@ }), b_or(transferable, true)),
ensures
    res@.len() == cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])).len(),
    forall|i: int| 0 <= i < res@.len() ==> sn_is(#[trigger] res@[i],
        cr_key(self.salter.mv().raw, cr_codes(codes, n16(count, 1), s_or(code, seq![65u8]))[i], cr_path(cr_stem(self.stem@, stem, n16(pidx, 0)), n16(ridx, 0), n16(kidx, 0) + i), if temp { t_min() } else { self.tier@ }), b_or(transferable, true)),
@entry
    let ghost cc = cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])); let ghost c0 = s_or(code, seq![65u8]); let ghost st = cr_stem(self.stem@, stem, n16(pidx, 0)); let ghost r0 = n16(ridx, 0); let ghost k0 = n16(kidx, 0);
    let ghost ti = if temp { t_min() } else { self.tier@ }; let ghost tr = b_or(transferable, true);
    proof { if codes.is_some() { assert(views(codes->Some_0@).len() == codes->Some_0@.len()); } }
@loop 0 vars(__v0)
    __v0@.len() == $k, forall|i: int| 0 <= i < $k ==> sbr(#[trigger] __v0@[i]) == c0,
@loop 1 vars(signers, codes)
    signers@.len() == $k, forall|i: int| 0 <= i < $k ==> sn_is(#[trigger] signers@[i], cr_key(self.salter.mv().raw, cc[i], cr_path(st, r0, k0 + i), ti), tr),
@loop 1 before
    proof { assert(views(codes@) =~= cc) by { assert forall|i: int| 0 <= i < codes@.len() implies #[trigger] views(codes@)[i] == cc[i] by { assert(sbr(codes@[i]) == codes@[i]@); } } assert(cc.len() < 0x7fff_ffff); }
@loop 1 start
    proof { assert(views(codes@)[$k - 1] == codes@[$k - 1]@); assert(cr_ok(cr_key(self.salter.mv().raw, cc[$k - 1], cr_path(st, r0, k0 + ($k - 1)), ti), tr)); }
