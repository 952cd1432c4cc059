// ------------------------------------------------------------------------------------------
// Specification: typed primitives
// ------------------------------------------------------------------------------------------
// ---- big endian integers and hexadecimal text ------------------------------------------------
pub proof fn l_be_rt(n: int, l: nat)
    requires 0 <= n < vpow(256, l)
    ensures be_int(be_enc(n, l)) == n, be_enc(n, l).len() == l
    decreases l
{
    l_be_len(n, l);
    if l > 0 {
        assert(n / 256 < vpow(256, (l - 1) as nat)) by (nonlinear_arith) requires n < 256 * vpow(256, (l - 1) as nat), n >= 0;
        l_be_rt(n / 256, (l - 1) as nat);
        assert(be_enc(n, l).drop_last() =~= be_enc(n / 256, (l - 1) as nat));
    }
}
pub proof fn l_pow256()
    ensures vpow(256, 2) == 0x1_0000, vpow(256, 4) == 0x1_0000_0000, vpow(256, 8) == 0x1_0000_0000_0000_0000, vpow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    reveal_with_fuel(vpow, 17);
    assert(vpow(256, 8) == 0x1_0000_0000_0000_0000) by (compute);
    assert(vpow(256, 16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}
pub broadcast proof fn l_pow256a(e: nat)
    requires e == 2 || e == 4 || e == 8
    ensures #[trigger] vpow(256, e) == (if e == 2 { 0x1_0000int } else if e == 4 { 0x1_0000_0000 } else { 0x1_0000_0000_0000_0000 })
{ l_pow256(); }
pub proof fn l_hexdig(d: int)
    requires 0 <= d < 16
    ensures hexval(hexdig(d) as int) == d, d != 0 ==> hexdig(d) != 48
{}
pub proof fn l_hex_rt(n: nat)
    ensures all_hex(hex_digits(n)), hex_int(hex_digits(n)) == n, hex_digits(n)[0] != 43, hex_digits(n).len() > 0,
        // minimal: no leading zero
        n > 0 ==> hex_digits(n)[0] != 48, n == 0 ==> hex_digits(n) == seq![48u8],
        // lower case
        forall|i: int| 0 <= i < hex_digits(n).len() ==> !(65 <= #[trigger] hex_digits(n)[i] <= 90),
    decreases n
{
    let h = hex_digits(n);
    if n < 16 { l_hexdig(n as int); reveal_with_fuel(hex_int, 2); assert(h.drop_last() =~= Seq::empty()); }
    else { l_hex_rt(n / 16); l_hexdig((n % 16) as int); assert(h.drop_last() =~= hex_digits(n / 16)); assert(h[0] == hex_digits(n / 16)[0]);
        assert forall|i: int| 0 <= i < h.len() implies hexval(#[trigger] h[i] as int) >= 0 && !(65 <= h[i] <= 90) by { if i < h.len() - 1 { assert(h[i] == hex_digits(n / 16)[i]); } }
    }
}
pub proof fn l_p_hex_rt(n: nat, max: int)
    requires n <= max
    ensures p_hex(hex_digits(n), max) == Some(n as int)
{ l_hex_rt(n); }
pub proof fn l_hex_nonneg(s: Seq<u8>)
    requires all_hex(s) || s.len() == 0
    ensures hex_int(s) >= 0
    decreases s.len()
{ if s.len() > 0 { assert(hexval(s.last() as int) >= 0) by { assert(s.last() == s[s.len() - 1]); } let d = s.drop_last(); if d.len() > 0 { assert forall|i: int| 0 <= i < d.len() implies hexval(#[trigger] d[i] as int) >= 0 by { assert(d[i] == s[i]); } } l_hex_nonneg(d); } }
pub broadcast proof fn l_p_hex_bounds(s: Seq<u8>, max: int)
    ensures (#[trigger] p_hex(s, max)).is_some() ==> 0 <= p_hex(s, max)->Some_0 <= max
{ let t = if s.len() > 0 && s[0] == 43 { s.skip(1) } else { s }; if p_hex(s, max).is_some() { l_hex_nonneg(t); } }

// ---- Number ----------------------------------------------------------------------------------
pub open spec fn n_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![77u8] || c == seq![48u8, 72u8] || c == seq![78u8] || c == seq![48u8, 65u8] }
// the smallest code that holds the value
pub open spec fn n_mv(n: int) -> MV {
    if n < 0x1_0000 { MV { code: seq![77u8], size: 0, raw: be_enc(n, 2) } }
    else if n < 0x1_0000_0000 { MV { code: seq![48u8, 72u8], size: 0, raw: be_enc(n, 4) } }
    else if n < 0x1_0000_0000_0000_0000 { MV { code: seq![78u8], size: 0, raw: be_enc(n, 8) } }
    else { MV { code: seq![48u8, 65u8], size: 0, raw: be_enc(n, 16) } }
}
// the value given: integer, else hexadecimal text ("" is zero), else zero
pub open spec fn n_given(num: Option<u128>, numh: Option<&Str>) -> Option<int> {
    if num.is_some() { Some(num->Some_0 as int) }
    else if numh.is_some() { if numh->Some_0@.len() == 0 { Some(0) } else { p_hex(numh->Some_0@, u128::MAX as int) } }
    else { Some(0) }
}
pub proof fn l_n_ty(m: MV)
    requires m_wf(m), n_ty()(m.code)
    ensures m.code == seq![77u8] ==> m.raw.len() == 2, m.code == seq![48u8, 72u8] ==> m.raw.len() == 4,
        m.code == seq![78u8] ==> m.raw.len() == 8, m.code == seq![48u8, 65u8] ==> m.raw.len() == 16, m.size == 0
{ reveal(m_sz); l_code4(); }
pub proof fn l_code4()
    ensures seq![77u8] != seq![78u8], seq![77u8] != seq![48u8, 72u8], seq![77u8] != seq![48u8, 65u8], seq![78u8] != seq![48u8, 72u8], seq![78u8] != seq![48u8, 65u8], seq![48u8, 72u8] != seq![48u8, 65u8],
        m_sz(seq![77u8]) == Some(Sz { hs: 1, ss: 0, ls: 0, fs: 4 }), m_sz(seq![48u8, 72u8]) == Some(Sz { hs: 2, ss: 0, ls: 0, fs: 8 }),
        m_sz(seq![78u8]) == Some(Sz { hs: 1, ss: 0, ls: 0, fs: 12 }), m_sz(seq![48u8, 65u8]) == Some(Sz { hs: 2, ss: 0, ls: 0, fs: 24 })
{
    reveal(m_sz);
    assert(seq![77u8][0] == 77 && seq![78u8][0] == 78 && seq![48u8, 72u8][1] == 72 && seq![48u8, 65u8][1] == 65);
    assert(seq![48u8, 72u8].len() == 2 && seq![48u8, 65u8].len() == 2);
    l_sz_tab(seq![77u8]); l_sz_tab(seq![78u8]); l_sz_tab(seq![48u8, 72u8]); l_sz_tab(seq![48u8, 65u8]);
}
pub proof fn l_sz_tab(c: Seq<u8>)
    ensures c.len() == 1 && c[0] == 77 ==> m_sz(c) == Some(Sz { hs: 1, ss: 0, ls: 0, fs: 4 }),
        c.len() == 1 && c[0] == 78 ==> m_sz(c) == Some(Sz { hs: 1, ss: 0, ls: 0, fs: 12 }),
        c.len() == 2 && c[0] == 48 && c[1] == 72 ==> m_sz(c) == Some(Sz { hs: 2, ss: 0, ls: 0, fs: 8 }),
        c.len() == 2 && c[0] == 48 && c[1] == 65 ==> m_sz(c) == Some(Sz { hs: 2, ss: 0, ls: 0, fs: 24 }),
        c.len() == 4 && c[0] == 49 && c[1] == 65 && c[2] == 65 && c[3] == 71 ==> m_sz(c) == Some(Sz { hs: 4, ss: 0, ls: 0, fs: 36 }),
{
    reveal(m_sz);
    if c.len() == 1 { assert(c =~= seq![c[0]]); }
    if c.len() == 2 { assert(c =~= seq![c[0], c[1]]); }
    if c.len() == 4 { assert(c =~= seq![c[0], c[1], c[2], c[3]]); }
}
pub proof fn l_n_new(n: int)
    requires 0 <= n <= u128::MAX
    ensures m_new(n_mv(n).code, n_mv(n).raw) == Some(n_mv(n)), n_ty()(n_mv(n).code), m_wf(n_mv(n)), be_int(n_mv(n).raw) == n
{
    l_code4(); l_pow256();
    l_be_rt(n, if n < 0x1_0000 { 2 } else if n < 0x1_0000_0000 { 4 } else if n < 0x1_0000_0000_0000_0000 { 8 } else { 16 });
    let m = n_mv(n);
    assert(m.raw.take(m.raw.len() as int) =~= m.raw);
    assert(seq![77u8][0] == 77 && seq![78u8][0] == 78 && seq![48u8, 72u8][0] == 48 && seq![48u8, 65u8][0] == 48);
    thm_m_new_wf(m.code, m.raw);
}
// P: a number keeps its value and its minimal lower-case hexadecimal text, directly and through text or binary
pub proof fn thm_number(n: int)
    requires 0 <= n <= u128::MAX
    ensures be_int(n_mv(n).raw) == n, m_wf(n_mv(n)), n_ty()(n_mv(n).code),
        m_parse(m_text(n_mv(n))) == Some(n_mv(n)), m_bparse(m_bin(n_mv(n))) == Some(n_mv(n)),
        p_hex(hex_digits(n as nat), u128::MAX as int) == Some(n), hex_digits(n as nat)[0] != 48 || n == 0,
        // smallest: no code of the type with less material holds the value
        forall|m: MV| #![trigger m_wf(m)] m_wf(m) && n_ty()(m.code) && be_int(m.raw) == n ==> n_mv(n).raw.len() <= m.raw.len(),
{
    l_n_new(n); l_p_hex_rt(n as nat, u128::MAX as int); l_hex_rt(n as nat);
    let t = m_text(n_mv(n)); let b = m_bin(n_mv(n));
    assert(t.is_prefix_of(t) && b.is_prefix_of(b));
    thm_m_text_roundtrip(n_mv(n), t); thm_m_bin_roundtrip(n_mv(n), b);
    assert forall|m: MV| #![trigger m_wf(m)] m_wf(m) && n_ty()(m.code) && be_int(m.raw) == n implies n_mv(n).raw.len() <= m.raw.len() by {
        l_n_ty(m); l_be_bound(m.raw); l_pow256(); l_be_len(n, 2); l_be_len(n, 4); l_be_len(n, 8); l_be_len(n, 16);
    }
}
pub proof fn l_be_bound(s: Seq<u8>)
    ensures 0 <= be_int(s) < vpow(256, s.len())
    decreases s.len()
{ if s.len() > 0 { l_be_bound(s.drop_last());
    assert(be_int(s.drop_last()) * 256 + s.last() < 256 * vpow(256, (s.len() - 1) as nat)) by (nonlinear_arith) requires be_int(s.drop_last()) + 1 <= vpow(256, (s.len() - 1) as nat), s.last() < 256; } }

// ---- Seqner ----------------------------------------------------------------------------------
pub open spec fn sq_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![48u8, 65u8] }
pub open spec fn sq_mv(n: int) -> MV { MV { code: seq![48u8, 65u8], size: 0, raw: be_enc(n, 16) } }
pub open spec fn sq_given(sn: Option<u128>, snh: Option<&Str>) -> Option<int> {
    if sn.is_some() { Some(sn->Some_0 as int) } else if snh.is_some() { p_hex(snh->Some_0@, u128::MAX as int) } else { Some(0) }
}
pub proof fn l_sq(m: MV)
    requires m_wf(m), sq_ty()(m.code)
    ensures m.raw.len() == 16, m.size == 0, m_fs(m) == 24
{ l_code4(); }
pub proof fn l_sq_new(n: int)
    requires 0 <= n <= u128::MAX
    ensures m_new(sq_mv(n).code, sq_mv(n).raw) == Some(sq_mv(n)), m_wf(sq_mv(n)), be_int(sq_mv(n).raw) == n
{
    l_code4(); l_pow256(); l_be_rt(n, 16); let m = sq_mv(n);
    assert(m.raw.take(16) =~= m.raw); assert(seq![48u8, 65u8][0] == 48);
    thm_m_new_wf(m.code, m.raw);
}
// P: a sequence number keeps its value and always has the fixed 24 character form
pub proof fn thm_seqner(n: int)
    requires 0 <= n <= u128::MAX
    ensures be_int(sq_mv(n).raw) == n, m_wf(sq_mv(n)), m_text(sq_mv(n)).len() == 24,
        m_parse(m_text(sq_mv(n))) == Some(sq_mv(n)), m_bparse(m_bin(sq_mv(n))) == Some(sq_mv(n)),
        p_hex(hex_digits(n as nat), u128::MAX as int) == Some(n),
{
    l_sq_new(n); l_p_hex_rt(n as nat, u128::MAX as int); l_sq(sq_mv(n));
    let t = m_text(sq_mv(n)); let b = m_bin(sq_mv(n));
    assert(t.is_prefix_of(t) && b.is_prefix_of(b));
    thm_m_text_roundtrip(sq_mv(n), t); thm_m_bin_roundtrip(sq_mv(n), b); l_m_both(sq_mv(n));
}
// ---- constructors only yield their own codes --------------------------------------------------
// Matter::new followed by a code check; an absent code may have a default
pub open spec fn t_new(dflt: Option<Seq<u8>>, ty: spec_fn(Seq<u8>) -> bool, code: Option<&Str>, raw: Option<&[u8]>, qb64b: Option<&[u8]>, qb64: Option<&Str>, qb2: Option<&[u8]>) -> Option<MV> {
    m_only(m_in(if code.is_some() { oss(code) } else { dflt }, osq(raw), osq(qb64b), oss(qb64), osq(qb2)), ty)
}
pub open spec fn any_in(raw: Option<&[u8]>, qb64b: Option<&[u8]>, qb64: Option<&Str>, qb2: Option<&[u8]>) -> bool { raw.is_some() || qb64b.is_some() || qb64.is_some() || qb2.is_some() }
// result of a constructor, given what it must yield
pub open spec fn t_res<T: crate::cesr::core::matter::Matter>(res: Result<T>, e: Option<MV>) -> bool {
    res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.mv() == e->Some_0)
}
// material of a type: what every constructor of the type yields
pub open spec fn t_wf(m: MV, ty: spec_fn(Seq<u8>) -> bool) -> bool { m_wf(m) && ty(m.code) }
pub proof fn thm_typed(ty: spec_fn(Seq<u8>) -> bool, dflt: Option<Seq<u8>>, code: Option<&Str>, raw: Option<&[u8]>, qb64b: Option<&[u8]>, qb64: Option<&Str>, qb2: Option<&[u8]>)
    ensures t_new(dflt, ty, code, raw, qb64b, qb64, qb2).is_some() ==> t_wf(t_new(dflt, ty, code, raw, qb64b, qb64, qb2)->Some_0, ty)
{ l_m_in_wf(if code.is_some() { oss(code) } else { dflt }, osq(raw), osq(qb64b), oss(qb64), osq(qb2)); }
