@struct cesr::core::indexer::tables::Sizage

@module cesr::core::indexer::tables
pub open spec fn iszg_eq(g: Sizage, z: ISz) -> bool {
    g.hs as int == z.hs && g.ss as int == z.ss && g.os as int == z.os && g.ls as int == z.ls && (if z.fs == -1 { g.fs == u32::MAX } else { g.fs as int == z.fs })
}

@fn cesr::core::indexer::tables::CurrentSigCodex::has_code(code) -> res
ensures
    res == i_cur(code@),
@entry
    proof { reveal(i_cur); assert(code@.len() == 1 ==> code@ =~= seq![code@[0]]); assert(code@.len() == 2 ==> code@ =~= seq![code@[0], code@[1]]); }

@fn cesr::core::indexer::tables::BothSigCodex::has_code(code) -> res
ensures
    res == i_both_lists(code@),
@entry
    proof { reveal(i_both_lists); assert(code@.len() == 1 ==> code@ =~= seq![code@[0]]); assert(code@.len() == 2 ==> code@ =~= seq![code@[0], code@[1]]); }

@fn cesr::core::indexer::tables::sizage(s) -> res
ensures
    res.is_ok() == i_sz(s@).is_some(),
    res.is_ok() ==> iszg_eq(res->Ok_0, i_sz(s@)->Some_0),
@entry
    proof { reveal(i_sz); assert(s@.len() == 1 ==> s@ =~= seq![s@[0]]); assert(s@.len() == 2 ==> s@ =~= seq![s@[0], s@[1]]); }

@fn cesr::core::indexer::tables::hardage(c) -> res
ensures
    res.is_ok() == i_hard(c as int).is_some(),
    res.is_ok() ==> res->Ok_0 as int == i_hard(c as int)->Some_0,

@fn cesr::core::indexer::tables::bardage(b) -> res
ensures
    b < 64 ==> res.is_ok() == i_hard(b64c(b as int) as int).is_some(),
    res.is_ok() ==> b < 64 && res->Ok_0 as int == i_hard(b64c(b as int) as int)->Some_0,

@trait cesr::core::indexer::Indexer
    spec fn iv(&self) -> IV;

@fn cesr::core::indexer::Indexer::code(self) -> res
ensures
    res@ == self.iv().code,

@fn cesr::core::indexer::Indexer::raw(self) -> res
ensures
    res@ == self.iv().raw,

@fn cesr::core::indexer::Indexer::index(self) -> res
ensures
    res as int == self.iv().index,

@fn cesr::core::indexer::Indexer::ondex(self) -> res
ensures
    res as int == self.iv().ondex,

@fn cesr::core::indexer::Indexer::set_code(self, code)
ensures
    final(self).iv() == (IV { code: code@, ..old(self).iv() }),

@fn cesr::core::indexer::Indexer::set_raw(self, raw)
ensures
    final(self).iv() == (IV { raw: raw@, ..old(self).iv() }),

@fn cesr::core::indexer::Indexer::set_index(self, index)
ensures
    final(self).iv() == (IV { index: index as int, ..old(self).iv() }),

@fn cesr::core::indexer::Indexer::set_ondex(self, ondex)
ensures
    final(self).iv() == (IV { ondex: ondex as int, ..old(self).iv() }),

@fn cesr::core::indexer::Indexer::new(index, ondex, code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    raw.is_some() ==> ({ let e = i_new(code->Some_0@, raw->Some_0@, if index.is_some() { index->Some_0 as int } else { 0 }, oint(ondex));
        res.is_ok() == (code.is_some() && e.is_some()) && (res.is_ok() ==> res->Ok_0.iv() == e->Some_0) }),
    raw.is_none() && qb64b.is_some() ==> res.is_ok() == (valid_utf8(qb64b->Some_0@) && i_parse(qb64b->Some_0@).is_some())
        && (res.is_ok() ==> res->Ok_0.iv() == i_parse(qb64b->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_some() ==> res.is_ok() == i_parse(qb64->Some_0@).is_some()
        && (res.is_ok() ==> res->Ok_0.iv() == i_parse(qb64->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_some() ==> res.is_ok() == i_bparse(qb2->Some_0@).is_some()
        && (res.is_ok() ==> res->Ok_0.iv() == i_bparse(qb2->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() ==> res.is_err(),

@fn cesr::core::indexer::Indexer::new_with_code_and_raw(code, raw, index, ondex) -> res
requires
    raw@.len() < MAXLEN,
ensures
    res.is_ok() == i_new(code@, raw@, index as int, oint(ondex)).is_some(),
    res.is_ok() ==> res->Ok_0.iv() == i_new(code@, raw@, index as int, oint(ondex))->Some_0,
@entry
    broadcast use {l_isz, l_pow64, l_subfull};
    let ghost ondex0 = ondex;

@fn cesr::core::indexer::Indexer::new_with_qb64(qb64) -> res
ensures
    res.is_ok() == i_parse(qb64@).is_some(),
    res.is_ok() ==> res->Ok_0.iv() == i_parse(qb64@)->Some_0,

@fn cesr::core::indexer::Indexer::new_with_qb64b(qb64b) -> res
ensures
    res.is_ok() == (valid_utf8(qb64b@) && i_parse(qb64b@).is_some()),
    res.is_ok() ==> res->Ok_0.iv() == i_parse(qb64b@)->Some_0,

@fn cesr::core::indexer::Indexer::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == i_bparse(qb2@).is_some(),
    res.is_ok() ==> res->Ok_0.iv() == i_bparse(qb2@)->Some_0,

@fn cesr::core::indexer::Indexer::qb64(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0@ == i_text(self.iv()),

@fn cesr::core::indexer::Indexer::qb64b(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0@ == i_text(self.iv()),

@fn cesr::core::indexer::Indexer::qb2(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0@ == i_bin(self.iv()),

@fn cesr::core::indexer::Indexer::infil(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0@ == i_text(self.iv()),
@entry
    broadcast use {l_isz, l_pow64, l_b64e_len, l_b64e_valid, ax_valid_ascii, l_enc_len, l_enc_b64, ax_str_bnd, l_splice_z, l_splice_full};
    proof { if i_wf(self.iv()) { l_i_both(self.iv()); } }

@fn cesr::core::indexer::Indexer::binfil(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0@ == i_bin(self.iv()),
@entry
    broadcast use {l_isz, l_pow64, l_enc_len, l_enc_b64, l_splice_2, l_shl_code32, l_shl_code64, l_be_len};
    proof { if i_wf(self.iv()) { l_i_both(self.iv()); l_code_b2(i_both(self.iv())); } }

@fn cesr::core::indexer::Indexer::exfil(self, qb64) -> res
ensures
    res.is_ok() == i_parse(qb64@).is_some(),
    res.is_ok() ==> final(self).iv() == i_parse(qb64@)->Some_0,
    res.is_err() ==> final(self).iv() == old(self).iv(),
@entry
    hide(all_b64); hide(ascii); hide(all_zero); hide(g_dec); hide(be_int);
    broadcast use {ax_chars_first, l_dec_bounds, l_isz, l_pow64, l_pow2, l_subsub, l_subfull, l_aaa_b64, l_be_refs, l_mask_i32, l_shl_i32, l_gdec_none, l_gdec_pad, l_gdec_lead};
    proof { l_i_bnds(*qb64); }
@loop 0 vars(pi)
    invariant
        $it@.len() <= 2,
        pi as int == be_refs($it@.take($k as int)),
@loop 0 before
    proof { l_be_refs_bound($it@, 0); }
@loop 0 start
    proof { l_be_refs_step($it@, $k - 1); l_be_refs_bound($it@, $k - 1); l_be_refs_bound($it@, $k as int); }
@loop 0 after
    proof { l_be_refs_full($it@); }
@loop 1 vars(li)
    invariant
        $it@.len() <= 2,
        li as int == be_refs($it@.take($k as int)),
@loop 1 before
    proof { l_be_refs_bound($it@, 0); }
@loop 1 start
    proof { l_be_refs_step($it@, $k - 1); l_be_refs_bound($it@, $k - 1); l_be_refs_bound($it@, $k as int); }
@loop 1 after
    proof { l_be_refs_full($it@); }

@fn cesr::core::indexer::Indexer::bexfil(self, qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == i_bparse(qb2@).is_some(),
    res.is_ok() ==> final(self).iv() == i_bparse(qb2@)->Some_0,
    res.is_err() ==> final(self).iv() == old(self).iv(),
@entry
    broadcast use {l_isz, l_pow64, l_pow2, l_sxs_valid, l_subsub, l_mask_u8, l_shl_u8, l_be_zero, l_dec_bounds, l_sx_bounds, l_b64ci, l_zero_refs, l_refs_run, l_refs_run2, l_subfull};
@loop 0 vars()
    invariant
        all_zero_refs($it@.take($k as int)),
@loop 0 before
    proof { assert(all_zero_refs($it@.take(0))); }
@loop 0 start
    proof {
        assert($it@.take($k as int)[$k - 1] == $it@[$k - 1]);
        assert(all_zero_refs($it@.take($k as int)) == (*$it@[$k - 1] == 0)) by { assert($it@.take($k as int) =~= $it@.take($k - 1).push($it@[$k - 1])); }
        if all_zero_refs($it@) { assert(*$it@[$k - 1] == 0); }
    }
@loop 0 after
    proof { assert($it@.take($it@.len() as int) =~= $it@); }

@fn cesr::core::indexer::Indexer::full_size(self) -> res
requires
    i_st(self.iv()),
ensures
    i_wf(self.iv()) ==> res.is_ok() && res->Ok_0 as int == i_fs(self.iv()),
@entry
    broadcast use {l_isz, l_pow64};

@consts cesr::core::indexer::tables::Codex i_coded reveal(i_sz);
@consts cesr::core::indexer::tables::SigCodex i_coded reveal(i_sz);
@consts cesr::core::indexer::tables::CurrentSigCodex i_coded_cur reveal(i_sz); reveal(i_cur);
@consts cesr::core::indexer::tables::BothSigCodex i_coded_both reveal(i_sz); reveal(i_both_lists);
