// ------------------------------------------------------------------------------------------
// Specification: Base64 strings as text primitives
// ------------------------------------------------------------------------------------------
pub open spec fn bx_ty() -> spec_fn(Seq<u8>) -> bool { |c: Seq<u8>| bx_code(c) }
pub open spec fn bx_code(c: Seq<u8>) -> bool { (c.len() == 2 && 52 <= c[0] <= 54 && c[1] == 65) || (c.len() == 4 && 55 <= c[0] <= 57 && c[1] == 65 && c[2] == 65 && c[3] == 65) }
pub open spec fn bx_ws(n: int) -> int { (4 - n % 4) % 4 }
pub open spec fn bx_ls(n: int) -> int { (3 - n % 4) % 3 }
pub open spec fn bx_paw(s: Seq<u8>) -> Seq<u8> { b64d(rep(65u8, bx_ws(s.len() as int)) + s) }
// a string, filled up with leading 'A' to whole quadlets, less the lead bytes
pub open spec fn bx_raw(s: Seq<u8>) -> Seq<u8> { bx_paw(s).skip(bx_ls(s.len() as int)) }
pub open spec fn bx_given(code: Seq<u8>, s: Seq<u8>) -> Option<MV> { if all_b64(s) { m_only(m_new(code, bx_raw(s)), bx_ty()) } else { None } }
pub open spec fn bx_lead(m: MV) -> int { m_sz(m.code)->Some_0.ls }
pub open spec fn bx_full(m: MV) -> Seq<u8> { b64e(zeros(bx_lead(m)) + m.raw) }
pub open spec fn bx_cut(m: MV) -> int { if bx_lead(m) == 0 { if bx_full(m).len() > 0 && bx_full(m)[0] == 65 { 1 } else { 0 } } else { (bx_lead(m) + 1) % 4 } }
pub open spec fn bx_str(m: MV) -> Seq<u8> { bx_full(m).skip(bx_cut(m)) }

#[verifier::spinoff_prover]
pub proof fn l_bx_sz(c: Seq<u8>)
    requires bx_code(c)
    ensures c.len() == 2 ==> m_sz(c) == Some(Sz { hs: 2, ss: 2, ls: c[0] - 52, fs: -1 }), c.len() == 4 ==> m_sz(c) == Some(Sz { hs: 4, ss: 4, ls: c[0] - 55, fs: -1 })
{
    reveal(m_sz);
    if c.len() == 2 { assert(c =~= seq![c[0], c[1]]); } else { assert(c =~= seq![c[0], c[1], c[2], c[3]]); }
}
pub proof fn l_bx_wf(m: MV)
    requires t_wf(m, bx_ty())
    ensures 0 <= bx_lead(m) <= 2, m_sz(m.code).is_some(), (bx_lead(m) + m.raw.len()) % 3 == 0, (zeros(bx_lead(m)) + m.raw).len() % 3 == 0,
        all_b64(bx_full(m)), ascii(bx_full(m)), bx_full(m).len() * 3 == (bx_lead(m) + m.raw.len()) * 4,
        bx_lead(m) > 0 ==> bx_full(m).len() >= 4, bx_cut(m) <= bx_full(m).len(),
{
    l_bx_sz(m.code); let f = zeros(bx_lead(m)) + m.raw;
    l_b64e_len(f); l_b64e_valid(f);
    assert(all_b64(bx_full(m)));
    assert forall|i: int| 0 <= i < bx_full(m).len() implies #[trigger] bx_full(m)[i] < 0x80 by { l_b64ic(bx_full(m)[i]); }
}
pub proof fn l_b64_ascii(s: Seq<u8>)
    requires all_b64(s)
    ensures ascii(s)
{ assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < 0x80 by { l_b64ic(s[i]); } }
pub proof fn l_joined_rep(s: Seq<Seq<u8>>, c: u8)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == seq![c]
    ensures joined(s, Seq::empty()) == rep(c, s.len() as int)
    decreases s.len()
{
    if s.len() == 0 { assert(joined(s, Seq::empty()) =~= rep(c, 0)); }
    else if s.len() == 1 { assert(s[0] == seq![c]); assert(joined(s, Seq::empty()) =~= rep(c, 1)); }
    else {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] == seq![c] by { assert(s[i] == seq![c]); }
        l_joined_rep(s.drop_last(), c); assert(s[s.len() - 1] == seq![c]); assert(joined(s, Seq::empty()) =~= rep(c, s.len() as int));
    }
}
pub proof fn l_bx_paw(s: Seq<u8>)
    requires all_b64(s)
    ensures ({ let ws = bx_ws(s.len() as int); let ls = bx_ls(s.len() as int); let t = rep(65u8, ws) + s;
        all_b64(t) && t.len() % 4 == 0 && bx_paw(s).len() * 4 == t.len() * 3 && ls <= bx_paw(s).len() && bx_paw(s).len() % 3 == 0
        && all_zero(bx_paw(s).take(ls)) && b64e(bx_paw(s)) == t })
{
    let ws = bx_ws(s.len() as int); let ls = bx_ls(s.len() as int); let t = rep(65u8, ws) + s;
    assert forall|i: int| 0 <= i < t.len() implies b64i(#[trigger] t[i] as int) >= 0 by { if i >= ws { assert(t[i] == s[i - ws]); } }
    assert(t.len() % 4 == 0);
    l_b64ed(t);
    let p = bx_paw(s);
    assert forall|i: int| 0 <= i < p.take(ls).len() implies #[trigger] p.take(ls)[i] == 0 by {
        reveal(bytes_of);
        l_by_val(t, 0); l_sxt_b(t, 1); l_sxt_b(t, 2); l_sxt_b(t, 3);
        assert(t[0] == 65 && t[1] == 65);
        if ls == 2 { assert(ws == 3); assert(t[2] == 65); } else { assert(ws == 2); }
        assert(b64i(65) == 0);
        assert(p[i] == by(t, i));
    }
}
pub proof fn l_bx_given(code: Seq<u8>, s: Seq<u8>)
    ensures bx_given(code, s).is_some() ==> t_wf(bx_given(code, s)->Some_0, bx_ty())
{ if all_b64(s) && m_new(code, bx_raw(s)).is_some() { thm_m_new_wf(code, bx_raw(s)); } }
// a bext code yields a bext code, and the raw material as it is
pub proof fn l_bx_new(code: Seq<u8>, raw: Seq<u8>)
    requires bx_code(code), raw.len() < 3 * 4096 - 3
    ensures m_new(code, raw).is_some(), ({ let m = m_new(code, raw)->Some_0; bx_code(m.code) && m.raw == raw && m_wf(m) && bx_lead(m) == (3 - raw.len() % 3) % 3 })
{
    let n = raw.len() as int; let ls = (3 - n % 3) % 3;
    l_bx_new_(code, raw, ls);
}
proof fn l_bx_new_(code: Seq<u8>, raw: Seq<u8>, ls: int)
    requires bx_code(code), ls == (3 - raw.len() % 3) % 3, raw.len() < 3 * 16777216 - 3
    ensures m_new(code, raw).is_some(), ({ let m = m_new(code, raw)->Some_0; bx_code(m.code) && m.raw == raw && m_wf(m) && bx_lead(m) == ls })
{
    broadcast use ax_str_bnd;
    let size = (raw.len() + ls) / 3;
    let z: Seq<u8> = if code.len() == 2 { s_get(code, 1, 2) } else { s_get(code, 1, 4) };
    assert(ascii(code)) by { assert forall|i: int| 0 <= i < code.len() implies #[trigger] code[i] < 0x80 by { if code.len() == 2 { } else { } } }
    assert(bnd(code, 1) && bnd(code, 2) && (code.len() == 4 ==> bnd(code, 4)));
    let z = s_get(code, 1, if code[0] <= 54 { 2 } else { 4 });
    assert(z =~= code.subrange(1, if code[0] <= 54 { 2 } else { 4 }));
    let pre: Seq<u8> = if code[0] <= 54 && size < 4096 { seq![(52 + ls) as u8] } else if code[0] <= 54 { seq![(55 + ls) as u8, 65u8, 65u8] } else { seq![(55 + ls) as u8] };
    let c = pre + z;
    assert(bx_code(c));
    l_bx_sz(c);
    thm_m_new_wf(code, raw);
}
// P: a string that does not start with an 'A' that the encoding reserves reads back as itself, through text and binary
#[verifier::spinoff_prover]
pub proof fn thm_bext(code: Seq<u8>, s: Seq<u8>)
    requires bx_code(code), all_b64(s), s.len() < 4 * 16777216 - 8, s.len() % 4 == 0 && s.len() > 0 ==> s[0] != 65
    ensures bx_given(code, s).is_some(), ({ let m = bx_given(code, s)->Some_0;
        t_wf(m, bx_ty()) && bx_str(m) == s && m_parse(m_text(m)) == Some(m) && m_bparse(m_bin(m)) == Some(m) })
{
    l_bx_paw(s);
    let ws = bx_ws(s.len() as int); let ls = bx_ls(s.len() as int); let p = bx_paw(s); let t = rep(65u8, ws) + s;
    assert(bx_raw(s).len() == p.len() - ls);
    assert((3 - bx_raw(s).len() % 3) % 3 == ls);
    l_bx_new_(code, bx_raw(s), ls);
    let m = bx_given(code, s)->Some_0;
    assert(zeros(ls) + m.raw =~= p) by { assert forall|i: int| 0 <= i < ls implies p[i] == 0 by { assert(p.take(ls)[i] == 0); } }
    assert(bx_full(m) == t);
    if ls == 0 { if s.len() % 4 == 3 { assert(t[0] == 65); } else { assert(ws == 0); if s.len() > 0 { assert(t[0] == s[0]); } } }
    assert(bx_cut(m) == ws);
    assert(t.skip(ws) =~= s);
    let x = m_text(m); let b = m_bin(m);
    assert(x.is_prefix_of(x) && b.is_prefix_of(b));
    thm_m_text_roundtrip(m, x); thm_m_bin_roundtrip(m, b);
}
