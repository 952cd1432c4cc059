@struct cesr::core::counter::tables::Sizage
@struct cesr::core::counter::Counter

@module cesr::core::counter
pub open spec fn cvw(c: &Counter) -> CV { CV { code: c.code@, count: c.count as int } }

@module cesr::core::counter::tables
pub open spec fn cszg_eq(g: Sizage, z: Sz) -> bool {
    g.hs as int == z.hs && g.ss as int == z.ss && g.ls as int == z.ls && g.fs as int == z.fs
}

@fn cesr::core::counter::tables::sizage(s) -> res
ensures
    res.is_ok() == c_sz(s@).is_some(),
    res.is_ok() ==> cszg_eq(res->Ok_0, c_sz(s@)->Some_0),
@entry
    proof { reveal(c_sz); assert(s@.len() == 2 ==> s@ =~= seq![s@[0], s@[1]]); }

@fn cesr::core::counter::tables::hardage(s) -> res
ensures
    res.is_ok() == (s@.len() == 2 && c_hard(s@[0] as int, s@[1] as int).is_some()),
    res.is_ok() ==> res->Ok_0 as int == c_hard(s@[0] as int, s@[1] as int)->Some_0,
@entry
    proof { assert(s@.len() == 2 ==> s@ =~= seq![s@[0], s@[1]]); }

@fn cesr::core::counter::tables::bardage(b) -> res
ensures
    b@.len() == 2 && b@[0] < 64 && b@[1] < 64 ==> res.is_ok() == c_hard(b64c(b@[0] as int) as int, b64c(b@[1] as int) as int).is_some(),
    res.is_ok() ==> b@.len() == 2 && b@[0] < 64 && b@[1] < 64 && res->Ok_0 as int == c_hard(b64c(b@[0] as int) as int, b64c(b@[1] as int) as int)->Some_0,
@entry
    proof { assert(b@.len() == 2 ==> b@ =~= seq![b@[0], b@[1]]); }

@fn cesr::core::counter::Counter::code(self) -> res
ensures
    res@ == cvw(self).code,

@fn cesr::core::counter::Counter::count(self) -> res
ensures
    res as int == cvw(self).count,

@fn cesr::core::counter::Counter::new(count, count_b64, code, qb64b, qb64, qb2) -> res
requires
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    code.is_some() && count.is_some() ==> res.is_ok() == c_new(code->Some_0@, count->Some_0 as int).is_some()
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_new(code->Some_0@, count->Some_0 as int)->Some_0),
    code.is_some() && count.is_none() && count_b64.is_some() ==> res.is_ok() == (all_b64(count_b64->Some_0@) && dec_int(count_b64->Some_0@) <= u32::MAX
            && c_new(code->Some_0@, dec_int(count_b64->Some_0@)).is_some())
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_new(code->Some_0@, dec_int(count_b64->Some_0@))->Some_0),
    code.is_some() && count.is_none() && count_b64.is_none() ==> res.is_ok() == c_new(code->Some_0@, 1).is_some()
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_new(code->Some_0@, 1)->Some_0),
    code.is_none() && qb64b.is_some() ==> res.is_ok() == (valid_utf8(qb64b->Some_0@) && c_parse(qb64b->Some_0@).is_some())
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_parse(qb64b->Some_0@)->Some_0),
    code.is_none() && qb64b.is_none() && qb64.is_some() ==> res.is_ok() == c_parse(qb64->Some_0@).is_some()
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_parse(qb64->Some_0@)->Some_0),
    code.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_some() ==> res.is_ok() == c_bparse(qb2->Some_0@).is_some()
        && (res.is_ok() ==> cvw(&res->Ok_0) == c_bparse(qb2->Some_0@)->Some_0),
    code.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() ==> res.is_err(),

@fn cesr::core::counter::Counter as Default::default() -> res
ensures
    res.code@ == Seq::<u8>::empty(),

@fn cesr::core::counter::Counter::new_with_code_and_count(code, count) -> res
ensures
    res.is_ok() == c_new(code@, count as int).is_some(),
    res.is_ok() ==> cvw(&res->Ok_0) == c_new(code@, count as int)->Some_0,
@entry
    broadcast use {l_csz, l_pow64};

@fn cesr::core::counter::Counter::new_with_qb64(qb64) -> res
ensures
    res.is_ok() == c_parse(qb64@).is_some(),
    res.is_ok() ==> cvw(&res->Ok_0) == c_parse(qb64@)->Some_0,

@fn cesr::core::counter::Counter::new_with_qb64b(qb64b) -> res
ensures
    res.is_ok() == (valid_utf8(qb64b@) && c_parse(qb64b@).is_some()),
    res.is_ok() ==> cvw(&res->Ok_0) == c_parse(qb64b@)->Some_0,

@fn cesr::core::counter::Counter::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == c_bparse(qb2@).is_some(),
    res.is_ok() ==> cvw(&res->Ok_0) == c_bparse(qb2@)->Some_0,

@fn cesr::core::counter::Counter::count_as_b64(self, length) -> res
ensures
    c_wf(cvw(self)) && length == 0 ==> res.is_ok() && res->Ok_0@ == enc_int(self.count as int, c_sz(self.code@)->Some_0.ss as nat),
    length > 0 && (self.count as int) < vpow(64, length as nat) ==> res.is_ok() && res->Ok_0@ == enc_int(self.count as int, length as nat),
@entry
    broadcast use {l_csz, l_pow64};

@fn cesr::core::counter::Counter::qb64(self) -> res
ensures
    res.is_ok() == c_wf(cvw(self)),
    res.is_ok() ==> res->Ok_0@ == c_text(cvw(self)),

@fn cesr::core::counter::Counter::qb64b(self) -> res
ensures
    res.is_ok() == c_wf(cvw(self)),
    res.is_ok() ==> res->Ok_0@ == c_text(cvw(self)),

@fn cesr::core::counter::Counter::qb2(self) -> res
ensures
    res.is_ok() == c_wf(cvw(self)),
    res.is_ok() ==> res->Ok_0@ == c_bin(cvw(self)),

@fn cesr::core::counter::Counter::infil(self) -> res
ensures
    res.is_ok() == c_wf(cvw(self)),
    res.is_ok() ==> res->Ok_0@ == c_text(cvw(self)),
@entry
    broadcast use {l_csz, l_pow64, l_enc_len};

@fn cesr::core::counter::Counter::binfil(self) -> res
ensures
    res.is_ok() == c_wf(cvw(self)),
    res.is_ok() ==> res->Ok_0@ == c_bin(cvw(self)),
@entry
    proof { if c_wf(cvw(self)) { l_c_text(cvw(self)); l_csz(self.code@); } }

@fn cesr::core::counter::Counter::exfil(self, qb64) -> res
ensures
    res.is_ok() == c_parse(qb64@).is_some(),
    res.is_ok() ==> cvw(final(self)) == c_parse(qb64@)->Some_0,
    res.is_err() ==> cvw(final(self)) == cvw(old(self)),
@entry
    broadcast use {l_csz, l_pow64, l_subfull};
    proof { l_c_bnds(*qb64); }

@fn cesr::core::counter::Counter::bexfil(self, qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    res.is_ok() == c_bparse(qb2@).is_some(),
    res.is_ok() ==> cvw(final(self)) == c_bparse(qb2@)->Some_0,
    res.is_err() ==> cvw(final(self)) == cvw(old(self)),
@entry
    broadcast use {l_csz, l_pow64, l_sxs_valid, l_dec_bounds, l_sx_bounds, l_b64ci};

@loop 0 vars(count)
    invariant
        forall|i: int| 0 <= i < $k ==> b64i(#[trigger] $it@[i] as int) >= 0,
        $it@ == chars_of(both@.subrange(hs as int, cs as int)), ascii(both@.subrange(hs as int, cs as int)),
        cs - hs <= 5, all_b64(both@.subrange(hs as int, cs as int)),
        count as int == dec_int(both@.subrange(hs as int, cs as int).take($k as int)),
@loop 0 before
    proof { reveal(dec_int); }
@loop 0 start
    broadcast use {ax_chars_ascii, l_pow64};
    proof {
        let t = both@.subrange(hs as int, cs as int);
        l_dec_step(t, $k - 1); l_dec_bounds(t.take($k - 1)); l_dec_bounds(t.take($k as int)); l_b64ic(t[$k - 1]);
        assert(t.take($k as int).len() == $k);
        assert(forall|o: u32| o <= 0x3ffffff ==> #[trigger] (o << 6) == o * 64) by (bit_vector);
    }
@loop 0 after
    broadcast use ax_chars_ascii;
    proof { let t = both@.subrange(hs as int, cs as int); assert(t.take(t.len() as int) =~= t); }
@fn cesr::core::counter::Counter::full_size(self) -> res
ensures
    res.is_ok() == c_sz(self.code@).is_some(),
    res.is_ok() ==> res->Ok_0 as int == c_sz(self.code@)->Some_0.fs,
@entry
    broadcast use l_csz;

@fn cesr::core::counter::Counter::sem_ver_parts_to_b64(parts) -> res
ensures
    parts@.len() == 3 ==> res.is_ok() == (parts@[0] <= 63 && parts@[1] <= 63 && parts@[2] <= 63),
    parts@.len() == 3 && res.is_ok() ==> res->Ok_0@ == sv_text(parts@[0] as int, parts@[1] as int, parts@[2] as int),
@loop 0 vars()
    invariant
        forall|i: int| 0 <= i < $k ==> parts@[i] <= 63,
@loop 1 vars(out)
    invariant
        out@.len() == $k,
        forall|i: int| 0 <= i < $k ==> (#[trigger] out@[i])@ == enc_int(parts@[i] as int, 1),
@loop 1 start
    broadcast use l_pow64;
@loop 1 after
    proof { if parts@.len() == 3 { l_sv_join(out@, parts@); } }

@fn cesr::core::counter::Counter::sem_ver_to_b64(major, minor, patch) -> res
ensures
    res.is_ok() == (major <= 63 && minor <= 63 && patch <= 63),
    res.is_ok() ==> res->Ok_0@ == sv_text(major as int, minor as int, patch as int),

@fn cesr::core::counter::Counter::sem_ver_str_to_b64(version) -> res
ensures
    res.is_ok() == sv_ok(split_at(version@, 46)),
    res.is_ok() ==> res->Ok_0@ == sv_text(sv_get(split_at(version@, 46), 0), sv_get(split_at(version@, 46), 1), sv_get(split_at(version@, 46), 2)),
@loop 0 vars(parts)
    invariant
        parts@.len() == 3, strings@.len() <= 3,
        views(strings@) == split_at(version@, 46),
        sv_upto(views(strings@), parts@, $k as int),
        forall|i: int| $k <= i < 3 ==> parts@[i] == 0,
@loop 0 start
    let ghost p0 = parts@;
    proof { let s = views(strings@)[$k - 1]; assert(s == strings@[$k - 1]@); let _ = sv_get(views(strings@), $k - 1); l_i8_empty(s);
        assert(sv_ok(views(strings@)) ==> sv_part(views(strings@)[$k - 1]).is_some()); }
@loop 0 after
    proof {
        let v = views(strings@);
        assert forall|i: int| 0 <= i < 3 implies parts@[i] as int == sv_get(v, i) by {}
        if parts@[0] <= 63 && parts@[1] <= 63 && parts@[2] <= 63 {
            assert forall|i: int| 0 <= i < v.len() implies sv_part(#[trigger] v[i]).is_some() && sv_part(v[i])->Some_0 <= 63 by { assert(sv_get(v, i) == parts@[i]); }
        }
        if sv_ok(v) { assert forall|i: int| 0 <= i < v.len() implies sv_get(v, i) <= 63 by { assert(sv_part(v[i])->Some_0 <= 63); } assert(sv_get(v, 0) <= 63 && sv_get(v, 1) <= 63 && sv_get(v, 2) <= 63); }
    }
@loop 0 end
    proof {
        let v = views(strings@); let k = $k - 1;
        assert(sv_part(v[k]) == Some(parts@[k] as int)); l_sv_step(v, p0, parts@, k);
    }

@consts cesr::core::counter::tables::Codex c_coded reveal(c_sz);
