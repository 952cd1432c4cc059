@fn cesr::core::util::b64_char_to_index(c) -> res
ensures
    res.is_ok() == (b64i(c as int) >= 0),
    res.is_ok() ==> res->Ok_0 as int == b64i(c as int),

@fn cesr::core::util::b64_index_to_char(i) -> res
ensures
    res.is_ok() == (i < 64),
    res.is_ok() ==> res->Ok_0 as int == b64c(i as int) as int && (res->Ok_0 as int) < 0x80,

@fn cesr::core::util::b64_to_u32(b64) -> res
ensures
    res.is_ok() == (all_b64(b64@) && dec_int(b64@) <= u32::MAX),
    res.is_ok() ==> res->Ok_0 as int == dec_int(b64@),
@entry
    broadcast use {ax_chars_ascii, ax_chars_ascii2, ax_chars_prefix, l_b64ic};
    proof { assert(dec_int(b64@.take(0)) == 0) by { reveal(dec_int); } }
@loop 0 vars(out)
    invariant
        $it@ == chars_of(b64@),
        forall|i: int| 0 <= i < $k ==> b64i(#[trigger] $it@[i] as int) >= 0,
        out as int == dec_int(b64@.take($k as int)),
@loop 0 before
@loop 0 start
    proof {
        let kk = $k - 1;
        let _ = chars_of(b64@).take(kk);
        assert forall|i: int| 0 <= i < kk implies (#[trigger] chars_of(b64@)[i] as int) < 0x80 by { assert($it@[i] == chars_of(b64@)[i]); }
        assert(kk < b64@.len());
        l_dec_step(b64@, kk);
        if all_b64(b64@) { l_dec_mono(b64@, kk); l_dec_mono(b64@, kk + 1); }
        assert(u32::MAX >> 6 == 0x3ffffffu32) by (bit_vector);
        assert(forall|o: u32| o <= 0x3ffffff ==> #[trigger] (o << 6) == o * 64) by (bit_vector);
    }
@loop 0 after
    proof {
        let n = chars_of(b64@).len() as int;
        assert forall|i: int| 0 <= i < n implies (#[trigger] chars_of(b64@)[i] as int) < 0x80 by { assert($it@[i] == chars_of(b64@)[i]); }
        assert(chars_of(b64@).len() == b64@.len());
        assert(b64@.take(n) =~= b64@);
        assert forall|i: int| 0 <= i < b64@.len() implies b64i(#[trigger] b64@[i] as int) >= 0 by { assert($it@[i] as int == b64@[i] as int); }
    }

@fn cesr::core::util::b64_to_u64(b64) -> res
ensures
    res.is_ok() == (all_b64(b64@) && dec_int(b64@) <= u64::MAX),
    res.is_ok() ==> res->Ok_0 as int == dec_int(b64@),
@entry
    broadcast use {ax_chars_ascii, ax_chars_ascii2, ax_chars_prefix, l_b64ic};
    proof { assert(dec_int(b64@.take(0)) == 0) by { reveal(dec_int); } }
@loop 0 vars(out)
    invariant
        $it@ == chars_of(b64@),
        forall|i: int| 0 <= i < $k ==> b64i(#[trigger] $it@[i] as int) >= 0,
        out as int == dec_int(b64@.take($k as int)),
@loop 0 before
@loop 0 start
    proof {
        let kk = $k - 1;
        let _ = chars_of(b64@).take(kk);
        assert forall|i: int| 0 <= i < kk implies (#[trigger] chars_of(b64@)[i] as int) < 0x80 by { assert($it@[i] == chars_of(b64@)[i]); }
        assert(kk < b64@.len());
        l_dec_step(b64@, kk);
        if all_b64(b64@) { l_dec_mono(b64@, kk); l_dec_mono(b64@, kk + 1); }
        assert(u64::MAX >> 6 == 0x3ffffffffffffffu64) by (bit_vector);
        assert(forall|o: u64| o <= 0x3ffffffffffffffu64 ==> #[trigger] (o << 6) == o * 64) by (bit_vector);
    }
@loop 0 after
    proof {
        let n = chars_of(b64@).len() as int;
        assert forall|i: int| 0 <= i < n implies (#[trigger] chars_of(b64@)[i] as int) < 0x80 by { assert($it@[i] == chars_of(b64@)[i]); }
        assert(chars_of(b64@).len() == b64@.len());
        assert(b64@.take(n) =~= b64@);
        assert forall|i: int| 0 <= i < b64@.len() implies b64i(#[trigger] b64@[i] as int) >= 0 by { assert($it@[i] as int == b64@[i] as int); }
    }

@fn cesr::core::util::u32_to_b64(n, length) -> res
ensures
    length == 0 ==> res.is_ok() && res->Ok_0@ == Seq::<u8>::empty(),
    length > 0 && (n as int) < vpow(64, length as nat) ==> res.is_ok() && res->Ok_0@ == enc_int(n as int, length as nat),
@entry
    broadcast use {ax_utf8_ascii, l_b64ci, ax_f32_overflow};
    proof { if length == 0 { assert(enc_int(n as int, 0) =~= Seq::empty()) by { reveal(enc_int); } }
        if n > 0 && length > 0 && (n as int) < vpow(64, length as nat) { ax_f32_overflow(n as int, length as int); } }
@loop 0 vars(x, out, overflow)
    invariant
        length > 0,
        (n as int) < vpow(64, length as nat) ==> {
            &&& out@.len() <= length
            &&& (x as int) < vpow(64, (length - out@.len()) as nat)
            &&& enc_int(x as int, (length - out@.len()) as nat) + out@ == enc_int(n as int, length as nat)
            &&& (n as int > 0 ==> f_ge(overflow, f_of(0)))
            &&& (x > 0 ==> n > 0)
        },
    decreases x,
@loop 0 before
    proof { assert(enc_int(n as int, length as nat) + Seq::<u8>::empty() =~= enc_int(n as int, length as nat)); }
@loop 0 start
    let ghost out0 = out@;
    proof { if (n as int) < vpow(64, length as nat) {
        if length == out@.len() { assert(vpow(64, 0) == 1); }
        l_enc_step(x as int, (length - out@.len()) as nat, out@); } }
@loop 0 end
    proof { if (n as int) < vpow(64, length as nat) { assert(out@ =~= seq![out@[0]] + out0); } }
@loop 1 vars(out)
    invariant
        length > 0,
        (n as int) < vpow(64, length as nat) ==> {
            &&& out@.len() <= length
            &&& enc_int(0, (length - out@.len()) as nat) + out@ == enc_int(n as int, length as nat)
        },
    decreases length - out@.len(),
@loop 1 start
    proof { if (n as int) < vpow(64, length as nat) { l_enc_step(0, (length - out@.len()) as nat, out@); } }
    let ghost out1 = out@;
@loop 1 end
    proof { assert(out@ =~= seq![65u8] + out1); }
@tail
    proof { if (n as int) < vpow(64, length as nat) { l_enc_zero(0, out@); } }

@fn cesr::core::util::u64_to_b64(n, length) -> res
ensures
    length == 0 ==> res.is_ok() && res->Ok_0@ == Seq::<u8>::empty(),
    length > 0 && (n as int) < vpow(64, length as nat) ==> res.is_ok() && res->Ok_0@ == enc_int(n as int, length as nat),
@entry
    broadcast use {ax_utf8_ascii, l_b64ci, ax_f32_overflow};
    proof { if length == 0 { assert(enc_int(n as int, 0) =~= Seq::empty()) by { reveal(enc_int); } }
        if n > 0 && length > 0 && (n as int) < vpow(64, length as nat) { ax_f32_overflow(n as int, length as int); } }
@loop 0 vars(x, out, overflow)
    invariant
        length > 0,
        (n as int) < vpow(64, length as nat) ==> {
            &&& out@.len() <= length
            &&& (x as int) < vpow(64, (length - out@.len()) as nat)
            &&& enc_int(x as int, (length - out@.len()) as nat) + out@ == enc_int(n as int, length as nat)
            &&& (n as int > 0 ==> f_ge(overflow, f_of(0)))
            &&& (x > 0 ==> n > 0)
        },
    decreases x,
@loop 0 before
    proof { assert(enc_int(n as int, length as nat) + Seq::<u8>::empty() =~= enc_int(n as int, length as nat)); }
@loop 0 start
    let ghost out0 = out@;
    proof { if (n as int) < vpow(64, length as nat) {
        if length == out@.len() { assert(vpow(64, 0) == 1); }
        l_enc_step(x as int, (length - out@.len()) as nat, out@); } }
@loop 0 end
    proof { if (n as int) < vpow(64, length as nat) { assert(out@ =~= seq![out@[0]] + out0); } }
@loop 1 vars(out)
    invariant
        length > 0,
        (n as int) < vpow(64, length as nat) ==> {
            &&& out@.len() <= length
            &&& enc_int(0, (length - out@.len()) as nat) + out@ == enc_int(n as int, length as nat)
        },
    decreases length - out@.len(),
@loop 1 start
    proof { if (n as int) < vpow(64, length as nat) { l_enc_step(0, (length - out@.len()) as nat, out@); } }
    let ghost out1 = out@;
@loop 1 end
    proof { assert(out@ =~= seq![65u8] + out1); }
@tail
    proof { if (n as int) < vpow(64, length as nat) { l_enc_zero(0, out@); } }

@fn cesr::core::util::code_b2_to_b64(b2, length) -> res
requires
    length < MAXLEN, b2@.len() < MAXLEN,
ensures
    res.is_ok() == (length == 0 || ((length + 1) * 3 / 4 <= b2@.len() && length <= 8)),
    res.is_ok() ==> res->Ok_0@ == sxs(b2@, length as int),
@entry
    broadcast use {l_pow64, l_be_splice, l_shr_b2_32, l_shr_b2_64};
    proof {
        l_enc_sxval(b2@, length as nat);
        if length == 0 { assert(sxs(b2@, 0) =~= Seq::empty()) by { reveal(sxs); } }
        else if length <= 8 && (length + 1) * 3 / 4 <= b2@.len() { l_sxval_take(b2@, (length + 1) * 3 / 4, length as nat); }
    }

@fn cesr::core::util::code_b64_to_b2(code) -> res
requires
    code@.len() <= 8,
ensures
    res.is_ok() == all_b64(code@),
    res.is_ok() ==> res->Ok_0@ == bytes_of(code@, ((code@.len() + 1) * 3 / 4) as int),
@entry
    broadcast use {l_pow64, l_shl_b2_64};
    proof { l_code_b2(code@); }

@fn cesr::core::util::nab_sextets(binary, count) -> res
requires
    count < MAXLEN, binary@.len() < MAXLEN,
ensures
    res.is_ok() == ((count + 1) * 3 / 4 <= binary@.len()),
    res.is_ok() ==> res->Ok_0@ == Seq::new(count as nat, |i: int| sx(binary@, i) as u8),
@entry
    hide(sx);
    proof { l_nab_bits(); }
@attrs #[verifier::allow_complex_invariants]
@loop 0 vars(i, j, out)
    invariant_except_break
        i < padded@.len(),
    invariant
        padded@.len() % 3 == 0, padded@.len() > 0, out@.len() * 3 == padded@.len() * 4, padded@.len() <= binary@.len() + 3,
        padded@.len() > binary@.len(),
        forall|q: int| 0 <= q < padded@.len() ==> #[trigger] padded@[q] as int == byt(binary@, q),
        j * 3 == i * 4, i % 3 == 0, i <= padded@.len(),
        forall|q: int| 0 <= q < j ==> #[trigger] out@[q] as int == sx(binary@, q),
    ensures
        i >= padded@.len(),
    decreases padded@.len() - i,
@loop 0 start
    proof {
        l_nab_step(binary@, i as int, j as int);
        assert(padded@[i as int] as int == byt(binary@, i as int) && padded@[i + 1] as int == byt(binary@, i + 1) && padded@[i + 2] as int == byt(binary@, i + 2));
    }
@tail
    proof { assert(out@.subrange(0, count as int) =~= Seq::new(count as nat, |i: int| sx(binary@, i) as u8)); }
