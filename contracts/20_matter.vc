@struct cesr::core::matter::tables::Sizage

@module cesr::core::matter::tables
pub open spec fn szg_eq(g: Sizage, z: Sz) -> bool {
    g.hs as int == z.hs && g.ss as int == z.ss && g.ls as int == z.ls && (if z.fs == -1 { g.fs == u32::MAX } else { g.fs as int == z.fs })
}

@fn cesr::core::matter::tables::sizage(s) -> res
ensures
    res.is_ok() == m_sz(s@).is_some(),
    res.is_ok() ==> szg_eq(res->Ok_0, m_sz(s@)->Some_0),
@entry
    proof { reveal(m_sz); }

@fn cesr::core::matter::tables::hardage(c) -> res
ensures
    res.is_ok() == m_hard(c as int).is_some(),
    res.is_ok() ==> res->Ok_0 as int == m_hard(c as int)->Some_0,

@fn cesr::core::matter::tables::bardage(b) -> res
ensures
    res.is_ok() == (b < 64 && m_hard(b64c(b as int) as int).is_some()),
    res.is_ok() ==> res->Ok_0 as int == m_hard(b64c(b as int) as int)->Some_0,

@fn cesr::core::matter::tables::raw_size(code) -> res
ensures
    res.is_ok() == (m_sz(code@).is_some() && m_sz(code@)->Some_0.fs != -1),
    res.is_ok() ==> res->Ok_0 as int == (m_sz(code@)->Some_0.fs - m_sz(code@)->Some_0.hs) * 3 / 4 - m_sz(code@)->Some_0.ls,
@entry
    broadcast use l_msz;

@trait cesr::core::matter::Matter
    spec fn mv(&self) -> MV;

@fn cesr::core::matter::Matter::code(self) -> res
ensures
    res@ == self.mv().code,

@fn cesr::core::matter::Matter::size(self) -> res
ensures
    res as int == self.mv().size,

@fn cesr::core::matter::Matter::raw(self) -> res
ensures
    res@ == self.mv().raw,

@fn cesr::core::matter::Matter::set_code(self, code)
ensures
    final(self).mv() == (MV { code: code@, ..old(self).mv() }),

@fn cesr::core::matter::Matter::set_size(self, size)
ensures
    final(self).mv() == (MV { size: size as int, ..old(self).mv() }),

@fn cesr::core::matter::Matter::set_raw(self, raw)
ensures
    final(self).mv() == (MV { raw: raw@, ..old(self).mv() }),

@fn cesr::core::matter::Matter::new(code, raw, qb64b, qb64, qb2) -> res
requires
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    raw.is_some() ==> res.is_ok() == (code.is_some() && m_new(code->Some_0@, raw->Some_0@).is_some())
        && (res.is_ok() ==> res->Ok_0.mv() == m_new(code->Some_0@, raw->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_some() ==> res.is_ok() == (valid_utf8(qb64b->Some_0@) && m_parse(qb64b->Some_0@).is_some())
        && (res.is_ok() ==> res->Ok_0.mv() == m_parse(qb64b->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_some() ==> res.is_ok() == m_parse(qb64->Some_0@).is_some()
        && (res.is_ok() ==> res->Ok_0.mv() == m_parse(qb64->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_some() ==> res.is_ok() == m_bparse(qb2->Some_0@).is_some()
        && (res.is_ok() ==> res->Ok_0.mv() == m_bparse(qb2->Some_0@)->Some_0),
    raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() ==> res.is_err(),

@fn cesr::core::matter::Matter::new_with_code_and_raw(code, raw) -> res
requires
    raw@.len() < MAXLEN,
ensures
    res.is_ok() == m_new(code@, raw@).is_some(),
    res.is_ok() ==> res->Ok_0.mv() == m_new(code@, raw@)->Some_0,
@entry
    broadcast use {ax_chars_first, ax_utf8_ascii, l_msz, l_pow64, ax_str_bnd, l_code_ext, l_subfull};

@fn cesr::core::matter::Matter::new_with_qb64(qb64) -> res
ensures
    res.is_ok() == m_parse(qb64@).is_some(),
    res.is_ok() ==> res->Ok_0.mv() == m_parse(qb64@)->Some_0,

@fn cesr::core::matter::Matter::new_with_qb64b(qb64b) -> res
ensures
    res.is_ok() == (valid_utf8(qb64b@) && m_parse(qb64b@).is_some()),
    res.is_ok() ==> res->Ok_0.mv() == m_parse(qb64b@)->Some_0,

@fn cesr::core::matter::Matter::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == m_bparse(qb2@).is_some(),
    res.is_ok() ==> res->Ok_0.mv() == m_bparse(qb2@)->Some_0,

@fn cesr::core::matter::Matter::qb64(self) -> res
requires
    m_st(self.mv()),
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0@ == m_text(self.mv()),

@fn cesr::core::matter::Matter::qb64b(self) -> res
requires
    m_st(self.mv()),
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0@ == m_text(self.mv()),

@fn cesr::core::matter::Matter::qb2(self) -> res
requires
    m_st(self.mv()),
    self.mv().size < 0x1000_0000,
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0@ == m_bin(self.mv()),

@fn cesr::core::matter::Matter::infil(self) -> res
requires
    m_st(self.mv()),
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0@ == m_text(self.mv()),
@entry
    broadcast use {l_msz, l_pow64, l_b64e_len, l_b64e_valid, ax_valid_ascii, l_enc_len, l_enc_b64, ax_str_bnd, l_splice_z, l_splice_full};
    proof { if m_wf(self.mv()) { l_m_both(self.mv()); } }

@fn cesr::core::matter::Matter::binfil(self) -> res
requires
    m_st(self.mv()),
    self.mv().size < 0x1000_0000,
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0@ == m_bin(self.mv()),
@entry
    broadcast use {l_msz, l_pow64, l_enc_len, l_enc_b64, l_splice_2, l_shl_code32, l_shl_code64, l_be_len};
    proof { if m_wf(self.mv()) { l_m_both(self.mv()); l_code_b2(m_both(self.mv())); } }

@fn cesr::core::matter::Matter::exfil(self, qb64) -> res
ensures
    res.is_ok() == m_parse(qb64@).is_some(),
    res.is_ok() ==> final(self).mv() == m_parse(qb64@)->Some_0,
    res.is_err() ==> final(self).mv() == old(self).mv(),
@entry
    hide(all_b64); hide(ascii); hide(all_zero); hide(g_dec); hide(be_int);
    broadcast use {ax_chars_first, l_dec_bounds, l_msz, l_pow64, l_pow2, l_subsub, l_subfull, l_aaa_b64, l_be_refs, l_mask_i32, l_shl_i32, l_gdec_none, l_gdec_pad, l_gdec_lead};
    proof { l_m_bnds(*qb64); }
@loop 0 vars(pi)
    invariant
        $it@.len() <= 2,
        pi as int == be_refs($it@.take($k as int)),
@loop 0 before
    proof { l_be_refs_bound($it@, 0); }
@loop 0 start
    proof { l_be_refs_step($it@, $k - 1); l_be_refs_bound($it@, $k - 1); l_be_refs_bound($it@, $k as int); }
@loop 0 after
    proof { l_be_refs_full($it@); }
@loop 1 vars(li)
    invariant
        $it@.len() <= 2,
        li as int == be_refs($it@.take($k as int)),
@loop 1 before
    proof { l_be_refs_bound($it@, 0); }
@loop 1 start
    proof { l_be_refs_step($it@, $k - 1); l_be_refs_bound($it@, $k - 1); l_be_refs_bound($it@, $k as int); }
@loop 1 after
    proof { l_be_refs_full($it@); }

@fn cesr::core::matter::Matter::bexfil(self, qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == m_bparse(qb2@).is_some(),
    res.is_ok() ==> final(self).mv() == m_bparse(qb2@)->Some_0,
    res.is_err() ==> final(self).mv() == old(self).mv(),
@entry
    broadcast use {l_msz, l_pow64, l_pow2, l_sxs_valid, l_subsub, l_mask_u8, l_shl_u8, l_be_zero, l_dec_bounds, l_sx_bounds, l_b64ci, l_zero_refs, l_refs_run, l_refs_run2, l_subfull};
@loop 0 vars()
    invariant
        all_zero_refs($it@.take($k as int)),
@loop 0 before
    proof { assert(all_zero_refs($it@.take(0))); }
@loop 0 start
    proof {
        assert($it@.take($k as int)[$k - 1] == $it@[$k - 1]);
        assert(all_zero_refs($it@.take($k as int)) == (*$it@[$k - 1] == 0)) by { assert($it@.take($k as int) =~= $it@.take($k - 1).push($it@[$k - 1])); }
        if all_zero_refs($it@) { assert(*$it@[$k - 1] == 0); }
    }
@loop 0 after
    proof { assert($it@.take($it@.len() as int) =~= $it@); }

@fn cesr::core::matter::Matter::full_size(self) -> res
requires
    self.mv().size < 0x1000_0000,
ensures
    m_wf(self.mv()) ==> res.is_ok() && res->Ok_0 as int == m_fs(self.mv()),
@entry
    broadcast use {l_msz, l_pow64};

@consts cesr::core::matter::tables::Codex m_coded reveal(m_sz);

@fn cesr::core::matter::Matter::digestive(self) -> res
ensures
    res == dg_ty()(self.mv().code),

@fn cesr::core::matter::Matter::transferable(self) -> res
ensures
    res == !m_nontrans(self.mv().code),
