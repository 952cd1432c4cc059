// ------------------------------------------------------------------------------------------
// Specification: typed primitives that only restrict the code
// ------------------------------------------------------------------------------------------
pub open spec fn vk_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![66u8] || c == seq![68u8] || c == seq![49u8, 65u8, 65u8, 65u8] || c == seq![49u8, 65u8, 65u8, 66u8] || c == seq![49u8, 65u8, 65u8, 73u8] || c == seq![49u8, 65u8, 65u8, 74u8] }
pub open spec fn cg_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![48u8, 66u8] || c == seq![48u8, 67u8] || c == seq![48u8, 73u8] }
pub open spec fn dg_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| h_alg(c).is_some() }
pub open spec fn sl_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![48u8, 65u8] }
pub open spec fn sd_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![65u8] || c == seq![74u8] || c == seq![81u8] }
pub open spec fn da_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| c == seq![49u8, 65u8, 65u8, 71u8] }
// indexed signature codes A-F, 2A-2F
pub open spec fn sg_ty(c: Seq<u8>) -> bool { (c.len() == 1 && 65 <= c[0] <= 70) || (c.len() == 2 && c[0] == 50 && 65 <= c[1] <= 70) }
pub open spec fn i_in(code: Option<Seq<u8>>, index: int, ondex: Option<int>, raw: Option<Seq<u8>>, qb64b: Option<Seq<u8>>, qb64: Option<Seq<u8>>, qb2: Option<Seq<u8>>) -> Option<IV> {
    if raw.is_some() { if code.is_some() { i_new(code->Some_0, raw->Some_0, index, ondex) } else { None } }
    else if qb64b.is_some() { if valid_utf8(qb64b->Some_0) { i_parse(qb64b->Some_0) } else { None } }
    else if qb64.is_some() { i_parse(qb64->Some_0) }
    else if qb2.is_some() { i_bparse(qb2->Some_0) }
    else { None }
}
pub open spec fn sg_only(e: Option<IV>) -> Option<IV> { if e.is_some() && sg_ty(e->Some_0.code) { e } else { None } }
pub open spec fn si_res<T: crate::cesr::core::indexer::Indexer>(res: Result<T>, e: Option<IV>) -> bool { res.is_ok() == e.is_some() && (res.is_ok() ==> res->Ok_0.iv() == e->Some_0) }
pub proof fn thm_siger(code: Option<Seq<u8>>, index: int, ondex: Option<int>, raw: Option<Seq<u8>>, qb64b: Option<Seq<u8>>, qb64: Option<Seq<u8>>, qb2: Option<Seq<u8>>)
    requires 0 <= index, ondex.is_some() ==> 0 <= ondex->Some_0
    ensures ({ let e = sg_only(i_in(code, index, ondex, raw, qb64b, qb64, qb2)); e.is_some() ==> sg_ty(e->Some_0.code) && i_wf(e->Some_0) })
{
    if raw.is_some() && code.is_some() && i_new(code->Some_0, raw->Some_0, index, ondex).is_some() { thm_i_new_wf(code->Some_0, raw->Some_0, index, ondex); }
    if qb64b.is_some() && i_parse(qb64b->Some_0).is_some() { thm_i_text_canonical(qb64b->Some_0); }
    if qb64.is_some() && i_parse(qb64->Some_0).is_some() { thm_i_text_canonical(qb64->Some_0); }
    if qb2.is_some() && i_bparse(qb2->Some_0).is_some() { thm_i_bin_canonical(qb2->Some_0); }
}

// ---- date-times ---------------------------------------------------------------------------------
pub open spec fn da_enc(s: Seq<u8>) -> Seq<u8> { repl(repl(repl(s, 58, 99), 46, 100), 43, 112) }
pub open spec fn da_dec(s: Seq<u8>) -> Seq<u8> { repl(repl(repl(s, 99, 58), 100, 46), 112, 43) }
// the profile: 32 characters, every one of them a digit, '-', 'T', ':', '.' or '+'
pub open spec fn da_char(c: u8) -> bool { (48 <= c && c <= 57) || c == 45 || c == 84 || c == 58 || c == 46 || c == 43 }
pub open spec fn da_profile(s: Seq<u8>) -> bool { s.len() == 32 && forall|i: int| 0 <= i < s.len() ==> da_char(#[trigger] s[i]) }
pub open spec fn da_text(s: Seq<u8>) -> Seq<u8> { seq![49u8, 65u8, 65u8, 71u8] + da_enc(s) }
pub open spec fn da_given(s: Seq<u8>) -> Option<MV> { if da_text(s).len() <= 36 { m_only(m_parse(da_text(s)), da_ty()) } else { None } }
pub open spec fn da_dts(m: MV) -> Seq<u8> { da_dec(m_text(m).skip(4)) }
pub proof fn l_da_rt(s: Seq<u8>)
    requires da_profile(s)
    ensures da_dec(da_enc(s)) == s, all_b64(da_enc(s)), da_enc(s).len() == 32
{
    assert(da_dec(da_enc(s)) =~= s) by { assert forall|i: int| 0 <= i < s.len() implies da_dec(da_enc(s))[i] == s[i] by { assert(da_char(s[i])); } }
    assert forall|i: int| 0 <= i < 32 implies b64i(#[trigger] da_enc(s)[i] as int) >= 0 by { assert(da_char(s[i])); }
}
pub proof fn l_da_parse(e: Seq<u8>)
    requires all_b64(e), e.len() == 32
    ensures m_parse(seq![49u8, 65u8, 65u8, 71u8] + e).is_some(), m_parse(seq![49u8, 65u8, 65u8, 71u8] + e)->Some_0.code == seq![49u8, 65u8, 65u8, 71u8]
{
    let c = seq![49u8, 65u8, 65u8, 71u8]; let t = c + e;
    l_sz_tab(c); l_msz(c);
    assert(t.take(4) =~= c); assert(t.subrange(4, 36) =~= e);
    assert(aaa(0) + e =~= e);
}
// P: a profile date-time is accepted, reads back character for character, and its qualified form is Base64
#[verifier::spinoff_prover]
pub proof fn thm_dater(s: Seq<u8>)
    requires da_profile(s)
    ensures da_given(s).is_some(), ({ let m = da_given(s)->Some_0; t_wf(m, da_ty()) && da_dts(m) == s && m_text(m) == da_text(s) && all_b64(m_text(m)) && m_text(m).len() == 36
        && m_parse(m_text(m)) == Some(m) && m_bparse(m_bin(m)) == Some(m) })
{
    l_da_rt(s); let t = da_text(s); let e = da_enc(s); let c = seq![49u8, 65u8, 65u8, 71u8];
    l_sz_tab(c); l_msz(c);
    assert(t.take(4) =~= c); assert(t.skip(4) =~= e); assert(t[0] == 49);
    assert(all_b64(t)) by { assert forall|i: int| 0 <= i < t.len() implies b64i(#[trigger] t[i] as int) >= 0 by { if i >= 4 { assert(t[i] == e[i - 4]); } } }
    l_da_parse(e);
    thm_m_text_canonical(t);
    let m = m_parse(t)->Some_0;
    assert(t.take(36) =~= t);
    assert(m_text(m).is_prefix_of(m_text(m)) && m_bin(m).is_prefix_of(m_bin(m)));
    thm_m_text_roundtrip(m, m_text(m)); thm_m_bin_roundtrip(m, m_bin(m));
}
pub proof fn l_vk(c: Seq<u8>)
    ensures vk_ty()(c) ==> s_suite(c).is_some()
{}
pub proof fn l_m_ascii(m: MV)
    requires m_wf(m)
    ensures ascii(m_text(m)), valid_utf8(m_text(m)), all_b64(m_text(m))
{
    broadcast use ax_valid_ascii;
    l_m_both(m); let t = m_text(m); assert(t.is_prefix_of(t)); thm_m_text_roundtrip(m, t);
    l_m_parse_ascii(t); 
    l_g_equiv(m_both(m), m_sz(m.code)->Some_0.ls, m.raw);
}
pub proof fn l_m_text_inj(a: MV, b: MV)
    requires m_wf(a), m_wf(b)
    ensures m_text(a) == m_text(b) ==> a == b
{
    let t = m_text(a); let u = m_text(b); assert(t.is_prefix_of(t) && u.is_prefix_of(u));
    thm_m_text_roundtrip(a, t); thm_m_text_roundtrip(b, u);
}
pub proof fn l_da_given(s: Seq<u8>)
    ensures da_given(s).is_some() ==> t_wf(da_given(s)->Some_0, da_ty())
{ if m_parse(da_text(s)).is_some() { thm_m_text_canonical(da_text(s)); } }

// ---- digests ------------------------------------------------------------------------------------
pub open spec fn dg_code(code: Option<Seq<u8>>) -> Seq<u8> { if code.is_some() { code->Some_0 } else { seq![69u8] } }
pub open spec fn dg_given(code: Option<Seq<u8>>, ser: Seq<u8>) -> Option<MV> {
    if h_alg(dg_code(code)).is_some() { Some(MV { code: dg_code(code), size: 0, raw: h_dig(dg_code(code), ser) }) } else { None }
}
pub proof fn l_dg_new(c: Seq<u8>, raw: Seq<u8>)
    requires h_alg(c).is_some(), raw.len() == h_alg(c)->Some_0.1
    ensures m_new(c, raw) == Some(MV { code: c, size: 0, raw }), m_wf(MV { code: c, size: 0, raw })
{ reveal(m_sz); assert(raw.take(raw.len() as int) =~= raw); assert(c.len() > 0 && !(52 <= c[0] <= 57)); }
pub proof fn l_dg_given(code: Option<Seq<u8>>, ser: Seq<u8>)
    ensures dg_given(code, ser).is_some() ==> m_new(dg_code(code), h_dig(dg_code(code), ser)) == dg_given(code, ser) && t_wf(dg_given(code, ser)->Some_0, dg_ty())
{ broadcast use ax_hash; if h_alg(dg_code(code)).is_some() { l_dg_new(dg_code(code), h_dig(dg_code(code), ser)); } }
// the digest verifies exactly the data it is the digest of
pub open spec fn dg_ver(m: MV, ser: Seq<u8>) -> bool { h_dig(m.code, ser) == m.raw }
pub open spec fn dg_same(a: MV, b: MV, ser: Seq<u8>) -> bool { a == b || (a.code != b.code && dg_ver(a, ser) && dg_ver(b, ser)) }
pub open spec fn dg_cmp_dig(res: Result<bool>, a: MV, ser: Seq<u8>, dig: Seq<u8>) -> bool {
    if dig == m_text(a) { res.is_ok() && res->Ok_0 }
    else {
        let b = if valid_utf8(dig) { m_parse(dig) } else { None };
        (b.is_none() ==> res.is_err())
        && (b.is_some() && (h_alg(b->Some_0.code).is_some() || b->Some_0.code == a.code) ==> res.is_ok() && res->Ok_0 == (a.code != b->Some_0.code && dg_ver(a, ser) && dg_ver(b->Some_0, ser)))
        && (b.is_some() && h_alg(b->Some_0.code).is_none() ==> res.is_err())
    }
}
// P: a digest made from data verifies that data, and no data with another digest
pub proof fn thm_diger(code: Option<Seq<u8>>, ser: Seq<u8>, other: Seq<u8>)
    requires dg_given(code, ser).is_some()
    ensures dg_ver(dg_given(code, ser)->Some_0, ser), t_wf(dg_given(code, ser)->Some_0, dg_ty()),
        dg_ver(dg_given(code, ser)->Some_0, other) == (h_dig(dg_code(code), other) == h_dig(dg_code(code), ser))
{ l_dg_given(code, ser); }
pub proof fn l_dg(m: MV)
    requires t_wf(m, dg_ty())
    ensures m_st(m), m.size == 0, m.raw.len() == h_alg(m.code)->Some_0.1
{ reveal(m_sz); }
