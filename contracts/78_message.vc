@struct seal::Seal

@fn seal::Seal::new(i, s, d, last) -> res
ensures
    res.i@ == i@, res.s@ == s@, res.d@ == d@, res.last == b_or(last, false),

@fn seal::Seal::i(self) -> res
ensures
    res@ == self.i@,

@fn seal::Seal::s(self) -> res
ensures
    match p_hex(self.s@, u128::MAX as int) { Some(n) => res.is_ok() && res->Ok_0@ == m_text(sq_mv(n)), None => res.is_err() },
@entry
    proof { let g = p_hex(self.s@, u128::MAX as int); if g.is_some() { l_p_hex_bounds(self.s@, u128::MAX as int); l_sq_new(g->Some_0); l_be_len(g->Some_0, 16); } }

@fn seal::Seal::d(self) -> res
ensures
    res@ == self.d@,

@fn messaging::messagize(serder, sigers, seal, wigers, cigars) -> res
requires
    ms_ok(sigers), ms_ok(wigers), serder.sv().raw.len() < MAXLEN,
ensures
    ({ let none = sigers.is_none() && wigers.is_none() && cigars.is_none(); let a = ms_atc(sigers, seal, wigers);
       res.is_ok() == (valid_utf8(serder.sv().raw) && !none && a.is_some()) && (res.is_ok() ==> res->Ok_0@ == serder.sv().raw + a->Some_0) }),
@entry
    hide(c_wf); hide(c_text); hide(i_text); hide(i_wf); hide(i_st); hide(m_text); hide(p_hex); hide(sq_mv); hide(ms_sigs);
    broadcast use {l_ms_c};
    let ghost aa = if sigers.is_some() { ms_ivs(sigers->Some_0) } else { Seq::empty() }; let ghost bb = if wigers.is_some() { ms_ivs(wigers->Some_0) } else { Seq::empty() };
    proof { l_pow64(2); assert(vpow(64, 2) == 4096) by { reveal_with_fuel(vpow, 3); } }
@loop 0 vars(atc)
    atc@ == a0 + ms_sigs(aa.take($k as int)), aa.len() == $it@.len(), forall|i: int| 0 <= i < $it@.len() ==> #[trigger] aa[i] == $it@[i].iv(), ms_wf(aa),
@loop 0 before
    let ghost a0 = atc@;
    proof { reveal(ms_sigs); assert(aa.take(0) =~= Seq::empty()); assert(a0 + ms_sigs(aa.take(0)) =~= a0); }
@loop 0 start
    proof { l_ms_step(aa, $k as int); assert(aa[$k - 1] == $it@[$k - 1].iv()); assert(i_wf(aa[$k - 1])); }
@loop 0 end
    proof { assert(atc@ =~= a0 + ms_sigs(aa.take($k as int))); }
@loop 0 after
    proof { assert(aa.take(aa.len() as int) =~= aa); }
@loop 1 vars(atc)
    atc@ == b0 + ms_sigs(bb.take($k as int)), bb.len() == $it@.len(), forall|i: int| 0 <= i < $it@.len() ==> #[trigger] bb[i] == $it@[i].iv(), ms_wf(bb),
@loop 1 before
    let ghost b0 = atc@;
    proof { reveal(ms_sigs); assert(bb.take(0) =~= Seq::empty()); assert(b0 + ms_sigs(bb.take(0)) =~= b0); }
@loop 1 start
    proof { l_ms_step(bb, $k as int); assert(bb[$k - 1] == $it@[$k - 1].iv()); assert(i_wf(bb[$k - 1])); }
@loop 1 end
    proof { assert(atc@ =~= b0 + ms_sigs(bb.take($k as int))); }
@loop 1 after
    proof { assert(bb.take(bb.len() as int) =~= bb); }

@struct signify::creating::RandyCreator

@fn receipting::receipt(pre, sn, said, version, kind) -> res
requires
    match rc_dv(pre@, sn as int, said@, version, kind) { Some(d) => jsn(d).len() <= 0xffff_ffff, None => true },
ensures
    match rc_dv(pre@, sn as int, said@, version, kind) { Some(d) => match sd_only(sd_ked(d, None, seq![69u8]), t_keri()) { Some(s) => res.is_ok() && crate::cesr::core::sadder::Sadder::sv(&res->Ok_0) == s, None => res.is_err() }, None => res.is_err() },
@entry
    broadcast use {l_vw_arr};
    proof { l_ord(); l_labs(); l_n_new(sn as int); }

@fn signify::creating::RandyCreator::create(self, codes, count, code, transferable) -> res
requires
    codes.is_some() ==> codes->Some_0@.len() < 0x7fff_ffff,
    forall|i: int| 0 <= i < cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])).len() ==> sd_ty()(#[trigger] cr_codes(codes, n16(count, 1), s_or(code, seq![65u8]))[i]),
ensures
    res@.len() == cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])).len(),
    forall|i: int| 0 <= i < res@.len() ==> sn_rand(#[trigger] res@[i], cr_codes(codes, n16(count, 1), s_or(code, seq![65u8]))[i], b_or(transferable, true)),
@entry
    let ghost cc = cr_codes(codes, n16(count, 1), s_or(code, seq![65u8])); let ghost c0 = s_or(code, seq![65u8]); let ghost tr = b_or(transferable, true);
    proof { if codes.is_some() { assert(views(codes->Some_0@).len() == codes->Some_0@.len()); } }
@loop 0 vars(__v0)
    __v0@.len() == $k, forall|i: int| 0 <= i < $k ==> sbr(#[trigger] __v0@[i]) == c0,
@loop 1 vars(__v1, codes)
    __v1@.len() == $k, forall|i: int| 0 <= i < $k ==> sn_rand(#[trigger] __v1@[i], cc[i], tr),
@loop 1 before
    proof { assert(views(codes@) =~= cc) by { assert forall|i: int| 0 <= i < codes@.len() implies #[trigger] views(codes@)[i] == cc[i] by { assert(sbr(codes@[i]) == codes@[i]@); } } }
@loop 1 start
    proof { assert(views(codes@)[$k - 1] == codes@[$k - 1]@); assert(sd_ty()(cc[$k - 1])); }

@fn signify::creating::SaltyCreator::set_salt(self, salt)
ensures
    final(self).salt@ == salt@, final(self).stem == old(self).stem, final(self).tier == old(self).tier, final(self).salter == old(self).salter,

@fn signify::creating::SaltyCreator::set_stem(self, stem)
ensures
    final(self).stem@ == stem@, final(self).salt == old(self).salt, final(self).tier == old(self).tier, final(self).salter == old(self).salter,

@fn signify::creating::SaltyCreator::set_tier(self, tier)
ensures
    final(self).tier@ == tier@, final(self).salt == old(self).salt, final(self).stem == old(self).stem, final(self).salter == old(self).salter,

@fn cesr::core::sadder::Sadder::pretty(self, size) -> res
ensures
    res.is_ok() ==> ({ let t = jpretty(jparse(jsn(self.sv().ked))->Some_0); let n = if size.is_some() { size->Some_0 as int } else { 1024 }; let r = res->Ok_0@;
        jparse(jsn(self.sv().ked)).is_some() && r.is_prefix_of(t) && r.len() <= n && (t.len() <= n ==> r == t) && bnd(t, r.len() as int) && forall|i: int| r.len() < i <= n && n < t.len() ==> !bnd(t, i) }),
@entry
    let ghost old_size = if size.is_some() { size->Some_0 } else { 1024usize };
@loop 0 vars(size)
invariant
    size <= old_size, old_size < s@.len(), forall|i: int| size < i <= old_size ==> !bnd(s@, i),
decreases
    size,
