// ------------------------------------------------------------------------------------------
// Specification: qualified CESR primitives (Matter)
// ------------------------------------------------------------------------------------------
// code table: hard size, soft size, lead bytes, full size in characters (-1: variable)
pub struct Sz { pub hs: int, pub ss: int, pub ls: int, pub fs: int }
#[verifier::opaque]
pub open spec fn m_sz(c: Seq<u8>) -> Option<Sz> {
    if c == seq![65u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // A
    else if c == seq![66u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // B
    else if c == seq![67u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // C
    else if c == seq![68u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // D
    else if c == seq![69u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // E
    else if c == seq![70u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // F
    else if c == seq![71u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // G
    else if c == seq![72u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // H
    else if c == seq![73u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // I
    else if c == seq![74u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // J
    else if c == seq![75u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 76 }) } // K
    else if c == seq![76u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 76 }) } // L
    else if c == seq![77u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 4 }) } // M
    else if c == seq![78u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 12 }) } // N
    else if c == seq![79u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // O
    else if c == seq![80u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 124 }) } // P
    else if c == seq![81u8] { Some(Sz { hs: 1, ss: 0, ls: 0, fs: 44 }) } // Q
    else if c == seq![48u8, 65u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 24 }) } // 0A
    else if c == seq![48u8, 66u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0B
    else if c == seq![48u8, 67u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0C
    else if c == seq![48u8, 68u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0D
    else if c == seq![48u8, 69u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0E
    else if c == seq![48u8, 70u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0F
    else if c == seq![48u8, 71u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0G
    else if c == seq![48u8, 72u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 8 }) } // 0H
    else if c == seq![48u8, 73u8] { Some(Sz { hs: 2, ss: 0, ls: 0, fs: 88 }) } // 0I
    else if c == seq![49u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 48 }) } // 1AAA
    else if c == seq![49u8, 65u8, 65u8, 66u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 48 }) } // 1AAB
    else if c == seq![49u8, 65u8, 65u8, 67u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 80 }) } // 1AAC
    else if c == seq![49u8, 65u8, 65u8, 68u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 80 }) } // 1AAD
    else if c == seq![49u8, 65u8, 65u8, 69u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 56 }) } // 1AAE
    else if c == seq![49u8, 65u8, 65u8, 70u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 8 }) } // 1AAF
    else if c == seq![49u8, 65u8, 65u8, 71u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 36 }) } // 1AAG
    else if c == seq![49u8, 65u8, 65u8, 72u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 100 }) } // 1AAH
    else if c == seq![49u8, 65u8, 65u8, 73u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 48 }) } // 1AAI
    else if c == seq![49u8, 65u8, 65u8, 74u8] { Some(Sz { hs: 4, ss: 0, ls: 0, fs: 48 }) } // 1AAJ
    else if c == seq![50u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 0, ls: 1, fs: 8 }) } // 2AAA
    else if c == seq![51u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 0, ls: 2, fs: 8 }) } // 3AAA
    else if c == seq![52u8, 65u8] { Some(Sz { hs: 2, ss: 2, ls: 0, fs: -1 }) } // 4A
    else if c == seq![53u8, 65u8] { Some(Sz { hs: 2, ss: 2, ls: 1, fs: -1 }) } // 5A
    else if c == seq![54u8, 65u8] { Some(Sz { hs: 2, ss: 2, ls: 2, fs: -1 }) } // 6A
    else if c == seq![55u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 4, ls: 0, fs: -1 }) } // 7AAA
    else if c == seq![56u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 4, ls: 1, fs: -1 }) } // 8AAA
    else if c == seq![57u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 4, ss: 4, ls: 2, fs: -1 }) } // 9AAA
    else if c == seq![52u8, 66u8] { Some(Sz { hs: 2, ss: 2, ls: 0, fs: -1 }) } // 4B
    else if c == seq![53u8, 66u8] { Some(Sz { hs: 2, ss: 2, ls: 1, fs: -1 }) } // 5B
    else if c == seq![54u8, 66u8] { Some(Sz { hs: 2, ss: 2, ls: 2, fs: -1 }) } // 6B
    else if c == seq![55u8, 65u8, 65u8, 66u8] { Some(Sz { hs: 4, ss: 4, ls: 0, fs: -1 }) } // 7AAB
    else if c == seq![56u8, 65u8, 65u8, 66u8] { Some(Sz { hs: 4, ss: 4, ls: 1, fs: -1 }) } // 8AAB
    else if c == seq![57u8, 65u8, 65u8, 66u8] { Some(Sz { hs: 4, ss: 4, ls: 2, fs: -1 }) } // 9AAB
    else { None }
}
pub open spec fn m_hard(c: int) -> Option<int> {
    if 65 <= c <= 90 || 97 <= c <= 122 { Some(1) } else if c == 48 || 52 <= c <= 54 { Some(2) } else if 49 <= c <= 51 || 55 <= c <= 57 { Some(4) } else { None }
}
pub open spec fn sz_ok(z: Sz) -> bool {
    &&& z.hs == 1 || z.hs == 2 || z.hs == 4
    &&& z.ss == 0 || z.ss == 2 || z.ss == 4
    &&& 0 <= z.ls <= 2
    &&& z.fs == -1 ==> (z.hs + z.ss) % 4 == 0 && z.ss > 0
    &&& z.fs != -1 ==> z.ss == 0 && z.fs % 4 == 0 && 4 <= z.fs <= 124 && z.hs < z.fs && (z.fs - z.hs) * 3 / 4 >= z.ls
            && (z.hs % 4 != 0 ==> z.ls == 0)
}
#[verifier::spinoff_prover]
pub broadcast proof fn l_msz(c: Seq<u8>)
    requires m_sz(c).is_some()
    ensures sz_ok((#[trigger] m_sz(c))->Some_0), c.len() == m_sz(c)->Some_0.hs, all_b64(c), ascii(c),
        m_hard(c[0] as int) == Some(m_sz(c)->Some_0.hs),
        m_sz(c)->Some_0.fs == -1 ==> 52 <= c[0] <= 57,
        m_sz(c)->Some_0.fs != -1 ==> !(52 <= c[0] <= 57),
        52 <= c[0] <= 54 ==> m_sz(c)->Some_0.fs == -1 && m_sz(c)->Some_0.hs == 2 && m_sz(c)->Some_0.ss == 2 && m_sz(c)->Some_0.ls == c[0] - 52,
        55 <= c[0] <= 57 ==> m_sz(c)->Some_0.fs == -1 && m_sz(c)->Some_0.hs == 4 && m_sz(c)->Some_0.ss == 4 && m_sz(c)->Some_0.ls == c[0] - 55,
{ reveal(m_sz); }

pub struct MV { pub code: Seq<u8>, pub size: int, pub raw: Seq<u8> }
pub open spec fn m_both(m: MV) -> Seq<u8> {
    let z = m_sz(m.code)->Some_0;
    if z.fs == -1 { m.code + enc_int(m.size, z.ss as nat) } else { m.code }
}
// a well formed primitive: what every constructor and parser produces
pub open spec fn m_wf(m: MV) -> bool {
    m_sz(m.code).is_some() && ({
        let z = m_sz(m.code)->Some_0;
        if z.fs == -1 { m.raw.len() + z.ls == 3 * m.size && m.size < vpow(64, z.ss as nat) }
        else { m.size == 0 && m.raw.len() == (z.fs - z.hs) * 3 / 4 - z.ls }
    })
}
pub open spec fn m_text(m: MV) -> Seq<u8> { g_text(m_both(m), m_sz(m.code)->Some_0.ls, m.raw) }
pub open spec fn m_bin(m: MV) -> Seq<u8> { g_bin(m_both(m), m_sz(m.code)->Some_0.ls, m.raw) }
pub open spec fn m_fs(m: MV) -> int { let z = m_sz(m.code)->Some_0; if z.fs == -1 { z.hs + z.ss + 4 * m.size } else { z.fs } }

// text parser
pub open spec fn m_parse(s: Seq<u8>) -> Option<MV> {
    if s.len() == 0 || m_hard(s[0] as int).is_none() { None } else {
        let hs = m_hard(s[0] as int)->Some_0;
        if s.len() < hs || m_sz(s.take(hs)).is_none() { None } else {
            let code = s.take(hs);
            let z = m_sz(code)->Some_0;
            let cs = z.hs + z.ss;
            if z.fs == -1 {
                if s.len() < cs || !all_b64(s.subrange(z.hs, cs)) { None } else {
                    let size = dec_int(s.subrange(z.hs, cs));
                    m_body(s, code, z, size, 4 * size + cs)
                }
            } else { m_body(s, code, z, 0, z.fs) }
        }
    }
}
pub open spec fn m_body(s: Seq<u8>, code: Seq<u8>, z: Sz, size: int, fs: int) -> Option<MV> {
    if s.len() < fs { None } else {
        match g_dec(z.hs + z.ss, z.ls, s.subrange(z.hs + z.ss, fs)) {
            Some(raw) => Some(MV { code, size, raw }),
            None => None,
        }
    }
}
// binary parser
pub open spec fn m_bparse(b: Seq<u8>) -> Option<MV> {
    if b.len() == 0 || m_hard(b64c(sx(b, 0)) as int).is_none() { None } else {
        let hs = m_hard(b64c(sx(b, 0)) as int)->Some_0;
        let code = sxs(b, hs);
        if b.len() < (hs * 3 + 3) / 4 || m_sz(code).is_none() { None } else {
            let z = m_sz(code)->Some_0;
            let cs = z.hs + z.ss;
            if z.fs == -1 {
                if b.len() < g_bcs(cs) { None } else {
                    let size = dec_int(sxs(b, cs).subrange(z.hs, cs));
                    m_bbody(b, code, z, size, 4 * size + cs)
                }
            } else { m_bbody(b, code, z, 0, z.fs) }
        }
    }
}
pub open spec fn m_bbody(b: Seq<u8>, code: Seq<u8>, z: Sz, size: int, fs: int) -> Option<MV> {
    if b.len() < fs * 3 / 4 { None } else {
        match g_bdec(z.hs + z.ss, z.ls, b.take(fs * 3 / 4)) {
            Some(raw) => Some(MV { code, size, raw }),
            None => None,
        }
    }
}
// constructor from code and raw bytes
pub open spec fn m_new(code: Seq<u8>, raw: Seq<u8>) -> Option<MV> {
    if code.len() == 0 { None }
    else if 52 <= code[0] <= 57 {
        let n = raw.len() as int;
        let ls = (3 - n % 3) % 3;
        let size = (n + ls) / 3;
        if code[0] <= 54 && size < 4096 { m_var(seq![(52 + ls) as u8], code, 1, 2, size, raw) }
        else if code[0] <= 54 && size < 16777216 { m_var(seq![(55 + ls) as u8, 65u8, 65u8], code, 1, 2, size, raw) }
        else if code[0] > 54 && size < 16777216 { m_var(seq![(55 + ls) as u8], code, 1, 4, size, raw) }
        else { None }
    }
    else if m_sz(code).is_none() { None }
    else {
        let z = m_sz(code)->Some_0;
        let n = (z.fs - z.hs) * 3 / 4 - z.ls;
        if raw.len() < n { None } else { Some(MV { code, size: 0, raw: raw.take(n) }) }
    }
}
// `code.get(a..b).unwrap_or_default()`
pub open spec fn s_get(s: Seq<u8>, a: int, b: int) -> Seq<u8> {
    if a <= b <= s.len() && bnd(s, a) && bnd(s, b) { s.subrange(a, b) } else { Seq::empty() }
}
pub open spec fn m_var(pre: Seq<u8>, code: Seq<u8>, a: int, b: int, size: int, raw: Seq<u8>) -> Option<MV> {
    if m_sz(pre + s_get(code, a, b)).is_none() { None }
    else { Some(MV { code: pre + s_get(code, a, b), size, raw }) }
}

// ---- the round trip theorems ----------------------------------------------------------------
pub proof fn l_m_both(m: MV)
    requires m_wf(m)
    ensures ({ let z = m_sz(m.code)->Some_0; let cs = z.hs + z.ss; let b = m_both(m);
        b.len() == cs && all_b64(b) && g_ok(cs, z.ls, m.raw.len() as int) && b.take(z.hs) == m.code && sz_ok(z) && m.code.len() == z.hs && m.size >= 0
        && (z.fs == -1 ==> b.subrange(z.hs, cs) == enc_int(m.size, z.ss as nat) && all_b64(enc_int(m.size, z.ss as nat)) && dec_int(enc_int(m.size, z.ss as nat)) == m.size)
        && m_text(m).len() == m_fs(m) && m_bin(m).len() * 4 == m_fs(m) * 3 })
{
    l_msz(m.code);
    let z = m_sz(m.code)->Some_0; let cs = z.hs + z.ss; let b = m_both(m);
    if z.fs == -1 {
        l_enc_len(m.size, z.ss as nat); l_enc_b64(m.size, z.ss as nat); l_dec_enc(m.size, z.ss as nat);
        assert(b.subrange(z.hs, cs) =~= enc_int(m.size, z.ss as nat));
    }
    assert(b.take(z.hs) =~= m.code);
    l_g_equiv(b, z.ls, m.raw);
}
// P: parsing the text of a well formed value (followed by anything) gives the value back
#[verifier::spinoff_prover]
pub proof fn thm_m_text_roundtrip(m: MV, s: Seq<u8>)
    requires m_wf(m), m_text(m).is_prefix_of(s)
    ensures m_parse(s) == Some(m), m_text(m).len() == m_fs(m)
{
    l_m_both(m); l_msz(m.code);
    let z = m_sz(m.code)->Some_0; let cs = z.hs + z.ss; let b = m_both(m); let t = m_text(m);
    l_prefix_take(t, s);
    assert(t.take(cs) =~= b);
    assert(s.take(z.hs) =~= m.code) by { assert forall|i: int| 0 <= i < z.hs implies s[i] == m.code[i] by { assert(b.take(z.hs)[i] == m.code[i]); assert(t.take(cs)[i] == b[i]); } }
    assert(s[0] == m.code[0]) by { assert(s.take(z.hs)[0] == m.code[0]); }
    if z.fs == -1 { assert(s.subrange(z.hs, cs) =~= b.subrange(z.hs, cs)) by { assert forall|i: int| z.hs <= i < cs implies s[i] == b[i] by { assert(t.take(cs)[i] == b[i]); } } }
    let fs = m_fs(m);
    assert(s.subrange(cs, fs) =~= b64e(zeros(g_p(cs, z.ls)) + m.raw).skip(cs % 4));
    l_g_dec(b, z.ls, m.raw);
}
// P: what the text parser accepts is canonical: it is well formed and re-encodes to the consumed characters
pub proof fn thm_m_text_canonical(s: Seq<u8>)
    requires m_parse(s).is_some()
    ensures ({ let m = m_parse(s)->Some_0; m_wf(m) && m_fs(m) <= s.len() && m_text(m) == s.take(m_fs(m)) })
{
    let hs = m_hard(s[0] as int)->Some_0; let code = s.take(hs); l_msz(code);
    let z = m_sz(code)->Some_0; let cs = z.hs + z.ss; let m = m_parse(s)->Some_0; let fs = m_fs(m);
    l_pow64(z.ss as nat);
    if z.fs == -1 { let soft = s.subrange(z.hs, cs); l_dec_bounds(soft); l_enc_dec(soft); assert(m_both(m) =~= s.take(cs)); }
    else { assert(m_both(m) =~= s.take(cs)); }
    let body = s.subrange(cs, fs);
    l_g_enc(cs, z.ls, body);
    assert(m_text(m) =~= s.take(fs));
}
pub proof fn thm_m_bin_roundtrip(m: MV, s: Seq<u8>)
    requires m_wf(m), m_bin(m).is_prefix_of(s)
    ensures m_bparse(s) == Some(m), m_bin(m).len() * 4 == m_fs(m) * 3
{
    l_m_both(m); l_msz(m.code);
    let z = m_sz(m.code)->Some_0; let cs = z.hs + z.ss; let b = m_both(m); let t = m_bin(m);
    l_prefix_take(t, s);
    l_g_bdec(b, z.ls, m.raw); l_g_equiv(b, z.ls, m.raw);
    l_sxs_prefix(t, s, cs, g_bcs(cs));
    l_sxs_take(s, z.hs, cs);
    assert(sxs(s, cs) == b);
    assert(sxs(s, z.hs) =~= m.code);
    assert(b64c(sx(s, 0)) == m.code[0]) by { reveal(sxs); assert(sxs(s, z.hs)[0] == m.code[0]); }
    let fs = m_fs(m);
    assert(s.take(fs * 3 / 4) =~= t);
}
pub proof fn l_sxs_take(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b
    ensures sxs(s, b).take(a) == sxs(s, a)
{ reveal(sxs); assert(sxs(s, b).take(a) =~= sxs(s, a)); }
pub proof fn l_sxs_prefix(t: Seq<u8>, s: Seq<u8>, n: int, k: int)
    requires 0 <= n, n % 4 != 3, k == g_bcs(n), k <= t.len() <= s.len(), forall|i: int| 0 <= i < t.len() ==> s[i] == t[i]
    ensures sxs(t, n) == sxs(s, n)
{
    reveal(sxs);
    assert forall|i: int| 0 <= i < n implies sx(t, i) == sx(s, i) by {
        let g = i / 4;
        if i % 4 == 0 { assert(3 * g < k); assert(byt(t, 3 * g) == byt(s, 3 * g)); }
        else if i % 4 == 1 { assert(3 * g + 1 < k); assert(byt(t, 3 * g) == byt(s, 3 * g)); assert(byt(t, 3 * g + 1) == byt(s, 3 * g + 1)); }
        else { assert(3 * g + 2 < k); assert(byt(t, 3 * g + 1) == byt(s, 3 * g + 1)); assert(byt(t, 3 * g + 2) == byt(s, 3 * g + 2)); }
    }
    assert(sxs(t, n) =~= sxs(s, n));
}
#[verifier::spinoff_prover]
pub proof fn thm_m_bin_canonical(s: Seq<u8>)
    requires m_bparse(s).is_some()
    ensures ({ let m = m_bparse(s)->Some_0; let n = m_fs(m) * 3 / 4; m_wf(m) && n <= s.len() && m_bin(m) == s.take(n) && m_bin(m).len() == n })
{
    let hs = m_hard(b64c(sx(s, 0)) as int)->Some_0; let code = sxs(s, hs); l_msz(code); l_sxs_valid(s, hs);
    let z = m_sz(code)->Some_0; let cs = z.hs + z.ss; let m = m_bparse(s)->Some_0; let fs = m_fs(m);
    l_pow64(z.ss as nat); l_sxs_valid(s, cs); l_sxs_take(s, hs, cs);
    let soft = sxs(s, cs).subrange(z.hs, cs);
    if z.fs == -1 {
        assert(all_b64(soft)); l_dec_bounds(soft); l_enc_dec(soft); assert(m_both(m) =~= sxs(s, cs)); }
    else { assert(m_both(m) =~= sxs(s, cs)); }
    let n = fs * 3 / 4; let b = s.take(n);
    assert(fs % 4 == 0);
    l_g_benc(cs, z.ls, b);
    l_sxs_prefix(b, s, cs, g_bcs(cs));
    l_g_equiv(m_both(m), z.ls, m.raw);
}
// P: the two domains agree: converting the binary form to Base64 gives the text form
pub proof fn thm_m_domains(m: MV)
    requires m_wf(m)
    ensures b64e(m_bin(m)) == m_text(m), b64d(m_text(m)) == m_bin(m), m_bparse(m_bin(m)) == m_parse(m_text(m))
{
    l_m_both(m); let z = m_sz(m.code)->Some_0;
    l_g_equiv(m_both(m), z.ls, m.raw); l_b64de(m_bin(m));
    assert(m_bin(m).is_prefix_of(m_bin(m)) && m_text(m).is_prefix_of(m_text(m)));
    thm_m_bin_roundtrip(m, m_bin(m)); thm_m_text_roundtrip(m, m_text(m));
}
// P: constructors only build well formed values
pub proof fn thm_m_new_wf(code: Seq<u8>, raw: Seq<u8>)
    requires m_new(code, raw).is_some()
    ensures m_wf(m_new(code, raw)->Some_0)
{
    let m = m_new(code, raw)->Some_0;
    l_msz(m.code); l_pow64(2); l_pow64(4);
    if 52 <= code[0] <= 57 { assert(m.code[0] as int == (if code[0] <= 54 && m.size < 4096 { 52int } else { 55int }) + (3 - raw.len() as int % 3) % 3); }
}

// state bound of any value that fits in memory
pub open spec fn m_st(m: MV) -> bool { m.raw.len() < MAXLEN }
// what a successful text parse says about the consumed characters
pub proof fn l_m_parse_ascii(s: Seq<u8>)
    ensures m_parse(s).is_some() ==> forall|i: int| 0 <= i < m_fs(m_parse(s)->Some_0) ==> #[trigger] s[i] < 0x80
{
    if m_parse(s).is_some() {
        thm_m_text_canonical(s);
        let m = m_parse(s)->Some_0; let fs = m_fs(m);
        l_m_both(m); l_g_equiv(m_both(m), m_sz(m.code)->Some_0.ls, m.raw);
        let t = m_text(m);
        assert forall|i: int| 0 <= i < fs implies #[trigger] s[i] < 0x80 by { assert(s.take(fs)[i] == t[i]); assert(b64i(t[i] as int) >= 0); }
    }
}
// codes are compared by content
pub broadcast proof fn l_code_ext(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
    ensures #![trigger m_sz(a), m_sz(b)] a == b
{ assert(a =~= b); }
// char boundaries at the parts of a parseable text
pub proof fn l_m_bnds(s: Str)
    ensures
        s@.len() > 0 && m_hard(s@[0] as int).is_some() ==> s@[0] < 0x80 && ({ let hs = m_hard(s@[0] as int)->Some_0;
            hs <= s@.len() && m_sz(s@.take(hs)).is_some() ==> bnd(s@, hs) && ({ let z = m_sz(s@.take(hs))->Some_0; let cs = z.hs + z.ss;
                cs <= s@.len() && all_b64(s@.subrange(hs, cs)) ==> bnd(s@, cs) }) }),
        m_parse(s@).is_some() ==> m_fs(m_parse(s@)->Some_0) <= s@.len() && bnd(s@, m_fs(m_parse(s@)->Some_0)),
{
    broadcast use ax_str_bnd;
    let x = s@;
    if x.len() > 0 && m_hard(x[0] as int).is_some() {
        let hs = m_hard(x[0] as int)->Some_0;
        if hs <= x.len() && m_sz(x.take(hs)).is_some() {
            l_msz(x.take(hs));
            assert(x.take(hs)[hs - 1] < 0x80);
            let z = m_sz(x.take(hs))->Some_0; let cs = z.hs + z.ss;
            if cs <= x.len() && all_b64(x.subrange(hs, cs)) && z.ss > 0 { let t = x.subrange(hs, cs); assert(b64i(t[z.ss - 1] as int) >= 0); assert(x[cs - 1] < 0x80); }
        }
    }
    if m_parse(x).is_some() { thm_m_text_canonical(x); l_m_parse_ascii(x); let m = m_parse(x)->Some_0; l_msz(m.code); let f = m_fs(m); l_m_both(m); assert(x[f - 1] < 0x80); }
}
// ---- C24: the table -----------------------------------------------------------------------
pub open spec fn m_coded(c: Seq<u8>) -> bool { m_sz(c).is_some() }
// fixed sizes are whole quadlets that fit code and material exactly; the first character tells the hard size; no code is a prefix of another
pub proof fn thm_m_table(c: Seq<u8>, d: Seq<u8>)
    requires m_sz(c).is_some(), m_sz(d).is_some()
    ensures ({ let z = m_sz(c)->Some_0; c.len() == z.hs && m_hard(c[0] as int) == Some(z.hs) && b64i(c[0] as int) >= 0 && b64c(b64i(c[0] as int)) == c[0]
        && (z.fs != -1 ==> z.ss == 0 && z.fs % 4 == 0 && g_ok(z.hs, z.ls, (z.fs - z.hs) * 3 / 4 - z.ls) && (z.hs % 4 == 0 ==> ((z.fs - z.hs) * 3 / 4 - z.ls + z.ls) * 4 == (z.fs - z.hs) * 3))
        && (z.fs == -1 ==> (z.hs + z.ss) % 4 == 0) }),
        c.is_prefix_of(d) ==> c == d,
{
    l_msz(c); l_msz(d); l_b64ic(c[0]);
    if c.is_prefix_of(d) { l_prefix_take(c, d); assert(c =~= d); }
}
// ---- what `Matter::new(code, raw, qb64b, qb64, qb2)` yields --------------------------------
pub open spec fn osq(o: Option<&[u8]>) -> Option<Seq<u8>> { if o.is_some() { Some(o->Some_0@) } else { None } }
pub open spec fn oss(o: Option<&Str>) -> Option<Seq<u8>> { if o.is_some() { Some(o->Some_0@) } else { None } }
pub open spec fn m_in(code: Option<Seq<u8>>, raw: Option<Seq<u8>>, qb64b: Option<Seq<u8>>, qb64: Option<Seq<u8>>, qb2: Option<Seq<u8>>) -> Option<MV> {
    if raw.is_some() { if code.is_some() { m_new(code->Some_0, raw->Some_0) } else { None } }
    else if qb64b.is_some() { if valid_utf8(qb64b->Some_0) { m_parse(qb64b->Some_0) } else { None } }
    else if qb64.is_some() { m_parse(qb64->Some_0) }
    else if qb2.is_some() { m_bparse(qb2->Some_0) }
    else { None }
}
// only accept material of a type: the value if its code is in the type's set
pub open spec fn m_only(m: Option<MV>, t: spec_fn(Seq<u8>) -> bool) -> Option<MV> { if m.is_some() && t(m->Some_0.code) { m } else { None } }
pub open spec fn m_is(r: Option<MV>, ok: bool, v: MV) -> bool { ok == r.is_some() && (ok ==> v == r->Some_0) }
pub proof fn l_m_in_wf(code: Option<Seq<u8>>, raw: Option<Seq<u8>>, qb64b: Option<Seq<u8>>, qb64: Option<Seq<u8>>, qb2: Option<Seq<u8>>)
    ensures m_in(code, raw, qb64b, qb64, qb2).is_some() ==> m_wf(m_in(code, raw, qb64b, qb64, qb2)->Some_0)
{
    if m_in(code, raw, qb64b, qb64, qb2).is_some() {
        if raw.is_some() { thm_m_new_wf(code->Some_0, raw->Some_0); }
        else if qb64b.is_some() { thm_m_text_canonical(qb64b->Some_0); }
        else if qb64.is_some() { thm_m_text_canonical(qb64->Some_0); }
        else { thm_m_bin_canonical(qb2->Some_0); }
    }
}
// verification key codes that cannot be rotated
pub open spec fn m_nontrans(c: Seq<u8>) -> bool { c == seq![66u8] || c == seq![49u8, 65u8, 65u8, 65u8] || c == seq![49u8, 65u8, 65u8, 67u8] || c == seq![49u8, 65u8, 65u8, 73u8] }
