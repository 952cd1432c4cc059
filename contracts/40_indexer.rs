// ------------------------------------------------------------------------------------------
// Specification: indexed material (Indexer)
// ------------------------------------------------------------------------------------------
// code table: hard size, soft size, other index size, lead bytes, full size in characters (-1: variable)
pub struct ISz { pub hs: int, pub ss: int, pub os: int, pub ls: int, pub fs: int }
#[verifier::opaque]
pub open spec fn i_sz(c: Seq<u8>) -> Option<ISz> {
    if c.len() == 1 && 65 <= c[0] <= 70 { Some(ISz { hs: 1, ss: 1, os: 0, ls: 0, fs: 88 }) } // A .. F
    else if c.len() == 2 && c[0] == 48 && 65 <= c[1] <= 66 { Some(ISz { hs: 2, ss: 2, os: 1, ls: 0, fs: 156 }) } // 0A 0B
    else if c.len() == 2 && c[0] == 50 && 65 <= c[1] <= 70 { Some(ISz { hs: 2, ss: 4, os: 2, ls: 0, fs: 92 }) } // 2A .. 2F
    else if c.len() == 2 && c[0] == 51 && 65 <= c[1] <= 66 { Some(ISz { hs: 2, ss: 6, os: 3, ls: 0, fs: 160 }) } // 3A 3B
    else if c == seq![48u8, 122u8] { Some(ISz { hs: 2, ss: 2, os: 0, ls: 0, fs: -1 }) } // 0z
    else if c == seq![49u8, 122u8] { Some(ISz { hs: 2, ss: 2, os: 1, ls: 1, fs: 76 }) } // 1z
    else if c == seq![52u8, 122u8] { Some(ISz { hs: 2, ss: 6, os: 3, ls: 1, fs: 80 }) } // 4z
    else { None }
}
// codes of signatures in the current list only
#[verifier::opaque]
pub open spec fn i_cur(c: Seq<u8>) -> bool {
    (c.len() == 1 && (c[0] == 66 || c[0] == 68 || c[0] == 70))
    || (c.len() == 2 && c[0] == 48 && c[1] == 66) || (c.len() == 2 && c[0] == 51 && c[1] == 66)
    || (c.len() == 2 && c[0] == 50 && (c[1] == 66 || c[1] == 68 || c[1] == 70))
}
// codes of signatures in both lists
#[verifier::opaque]
pub open spec fn i_both_lists(c: Seq<u8>) -> bool {
    (c.len() == 1 && (c[0] == 65 || c[0] == 67 || c[0] == 69))
    || (c.len() == 2 && c[0] == 48 && c[1] == 65) || (c.len() == 2 && c[0] == 51 && c[1] == 65)
    || (c.len() == 2 && c[0] == 50 && (c[1] == 65 || c[1] == 67 || c[1] == 69))
}
pub open spec fn i_hard(c: int) -> Option<int> {
    if 65 <= c <= 90 || 97 <= c <= 122 { Some(1) } else if 48 <= c <= 52 { Some(2) } else { None }
}
pub open spec fn isz_ok(z: ISz) -> bool {
    &&& z.hs == 1 || z.hs == 2
    &&& (z.ss == 1 && z.os == 0) || (z.ss == 2 && z.os == 1) || (z.ss == 4 && z.os == 2) || (z.ss == 6 && z.os == 3) || (z.ss == 2 && z.os == 0)
    &&& 0 <= z.ls <= 1
    &&& z.fs == -1 ==> z.hs + z.ss == 4 && z.os == 0 && z.ls == 0 && z.ss == 2
    &&& z.fs != -1 ==> z.fs % 4 == 0 && 76 <= z.fs <= 160
    &&& (z.hs + z.ss) % 4 != 3 && ((z.hs + z.ss) % 4 != 0 ==> z.ls == 0)
}
pub broadcast proof fn l_isz(c: Seq<u8>)
    requires i_sz(c).is_some()
    ensures isz_ok((#[trigger] i_sz(c))->Some_0), c.len() == i_sz(c)->Some_0.hs, all_b64(c), ascii(c),
        i_hard(c[0] as int) == Some(i_sz(c)->Some_0.hs),
        !(i_cur(c) && i_both_lists(c)), i_cur(c) || i_both_lists(c) ==> i_sz(c)->Some_0.fs != -1 && i_sz(c)->Some_0.ls == 0,
        i_sz(c)->Some_0.os == 0 && i_sz(c)->Some_0.fs != -1 ==> i_cur(c) || i_both_lists(c),
{ reveal(i_sz); reveal(i_cur); reveal(i_both_lists); }

pub struct IV { pub code: Seq<u8>, pub raw: Seq<u8>, pub index: int, pub ondex: int }
// the other index a value carries: none (0) for current-only codes, the index itself where the code has no room for another
pub open spec fn i_odx(c: Seq<u8>, z: ISz, index: int, o: int) -> int {
    if i_cur(c) { 0 } else if z.os == 0 { index } else { o }
}
pub open spec fn i_wf(v: IV) -> bool {
    i_sz(v.code).is_some() && ({
        let z = i_sz(v.code)->Some_0;
        0 <= v.index < vpow(64, (z.ss - z.os) as nat) && 0 <= v.ondex
        && v.ondex == i_odx(v.code, z, v.index, v.ondex)
        && (z.os > 0 ==> v.ondex < vpow(64, z.os as nat))
        && v.raw.len() == (if z.fs == -1 { 3 * v.index } else { (z.fs - z.hs - z.ss) * 3 / 4 - z.ls })
    })
}
pub open spec fn i_both(v: IV) -> Seq<u8> {
    let z = i_sz(v.code)->Some_0;
    v.code + enc_int(v.index, (z.ss - z.os) as nat) + (if z.os == 0 { Seq::empty() } else { enc_int(v.ondex, z.os as nat) })
}
pub open spec fn i_text(v: IV) -> Seq<u8> { g_text(i_both(v), i_sz(v.code)->Some_0.ls, v.raw) }
pub open spec fn i_bin(v: IV) -> Seq<u8> { g_bin(i_both(v), i_sz(v.code)->Some_0.ls, v.raw) }
pub open spec fn i_fs(v: IV) -> int { let z = i_sz(v.code)->Some_0; if z.fs == -1 { 4 * v.index + z.hs + z.ss } else { z.fs } }
// constructor from code, raw bytes and indices
pub open spec fn i_new(code: Seq<u8>, raw: Seq<u8>, index: int, ondex: Option<int>) -> Option<IV> {
    if i_sz(code).is_none() { None } else {
        let z = i_sz(code)->Some_0;
        let od = if i_cur(code) { 0 } else if ondex.is_some() { ondex->Some_0 } else if z.os == 0 || i_both_lists(code) { index } else { 0 };
        let n = if z.fs == -1 { 3 * index } else { (z.fs - z.hs - z.ss) * 3 / 4 - z.ls };
        if index >= vpow(64, (z.ss - z.os) as nat) { None }
        else if i_cur(code) && ondex.is_some() { None }
        else if z.os > 0 && ondex.is_some() && ondex->Some_0 >= vpow(64, z.os as nat) { None }
        else if z.os == 0 && ondex.is_some() && ondex->Some_0 != index { None }
        else if raw.len() < n { None }
        else { Some(IV { code, raw: raw.take(n), index, ondex: od }) }
    }
}
// the two index fields of a code text
pub open spec fn i_soft(code: Seq<u8>, z: ISz, both: Seq<u8>) -> Option<(int, int)> {
    let idx = both.subrange(z.hs, z.hs + z.ss - z.os); let odx = both.subrange(z.hs + z.ss - z.os, z.hs + z.ss);
    if !all_b64(idx) || (z.os > 0 && (!all_b64(odx) || (i_cur(code) && dec_int(odx) != 0))) { None }
    else { Some((dec_int(idx), i_odx(code, z, dec_int(idx), dec_int(odx)))) }
}
pub open spec fn i_size(z: ISz, index: int) -> int { if z.fs == -1 { 4 * index + z.hs + z.ss } else { z.fs } }
pub open spec fn i_parse(s: Seq<u8>) -> Option<IV> {
    if s.len() == 0 || i_hard(s[0] as int).is_none() { None } else {
        let hs = i_hard(s[0] as int)->Some_0;
        if s.len() < hs || i_sz(s.take(hs)).is_none() { None } else {
            let code = s.take(hs); let z = i_sz(code)->Some_0; let cs = z.hs + z.ss;
            if s.len() < cs || i_soft(code, z, s.take(cs)).is_none() { None } else {
                let (index, ondex) = i_soft(code, z, s.take(cs))->Some_0; let fs = i_size(z, index);
                if s.len() < fs { None } else { match g_dec(cs, z.ls, s.subrange(cs, fs)) {
                    Some(raw) => Some(IV { code, raw, index, ondex }),
                    None => None,
                } }
            }
        }
    }
}
pub open spec fn i_bparse(b: Seq<u8>) -> Option<IV> {
    if b.len() == 0 || i_hard(b64c(sx(b, 0)) as int).is_none() { None } else {
        let hs = i_hard(b64c(sx(b, 0)) as int)->Some_0; let code = sxs(b, hs);
        if b.len() < (hs * 3 + 3) / 4 || i_sz(code).is_none() { None } else {
            let z = i_sz(code)->Some_0; let cs = z.hs + z.ss;
            if b.len() < g_bcs(cs) || i_soft(code, z, sxs(b, cs)).is_none() { None } else {
                let (index, ondex) = i_soft(code, z, sxs(b, cs))->Some_0; let n = i_size(z, index) * 3 / 4;
                if b.len() < n { None } else { match g_bdec(cs, z.ls, b.take(n)) {
                    Some(raw) => Some(IV { code, raw, index, ondex }),
                    None => None,
                } }
            }
        }
    }
}
// ---- theorems --------------------------------------------------------------------------------
#[verifier::spinoff_prover]
pub proof fn l_i_both(v: IV)
    requires i_wf(v)
    ensures ({ let z = i_sz(v.code)->Some_0; let cs = z.hs + z.ss; let b = i_both(v); let e1 = enc_int(v.index, (z.ss - z.os) as nat); let e2 = enc_int(v.ondex, z.os as nat);
        b.len() == cs && all_b64(b) && ascii(b) && g_ok(cs, z.ls, v.raw.len() as int) && b.take(z.hs) == v.code && isz_ok(z) && v.code.len() == z.hs
        && all_b64(e1) && e1.len() == z.ss - z.os && dec_int(e1) == v.index && b.subrange(z.hs, cs - z.os) == e1
        && (z.os > 0 ==> all_b64(e2) && e2.len() == z.os && dec_int(e2) == v.ondex && b.subrange(cs - z.os, cs) == e2)
        && i_soft(v.code, z, b) == Some((v.index, v.ondex))
        && i_text(v).len() == i_fs(v) && i_bin(v).len() * 4 == i_fs(v) * 3 })
{
    l_isz(v.code);
    let z = i_sz(v.code)->Some_0; let cs = z.hs + z.ss; let b = i_both(v); let ms = z.ss - z.os; let e1 = enc_int(v.index, ms as nat);
    l_enc_len(v.index, ms as nat); l_enc_b64(v.index, ms as nat); l_dec_enc(v.index, ms as nat);
    if z.os > 0 { let e2 = enc_int(v.ondex, z.os as nat); l_enc_len(v.ondex, z.os as nat); l_enc_b64(v.ondex, z.os as nat); l_dec_enc(v.ondex, z.os as nat); assert(b.subrange(cs - z.os, cs) =~= e2); }
    else { assert(b.subrange(cs, cs) =~= Seq::<u8>::empty()); reveal(dec_int); }
    assert(b.subrange(z.hs, cs - z.os) =~= e1);
    assert(b.take(z.hs) =~= v.code);
    assert forall|i: int| 0 <= i < cs implies b64i(#[trigger] b[i] as int) >= 0 && b[i] < 0x80 by {
        if i < z.hs { assert(b[i] == v.code[i]); } else if i < cs - z.os { assert(b[i] == e1[i - z.hs]); } else { let e2 = enc_int(v.ondex, z.os as nat); assert(b[i] == e2[i - z.hs - ms]); }
    }
    l_g_equiv(b, z.ls, v.raw);
}
pub proof fn thm_i_text_roundtrip(v: IV, s: Seq<u8>)
    requires i_wf(v), i_text(v).is_prefix_of(s)
    ensures i_parse(s) == Some(v), i_text(v).len() == i_fs(v), all_b64(i_text(v))
{
    l_i_both(v); l_isz(v.code);
    let z = i_sz(v.code)->Some_0; let cs = z.hs + z.ss; let b = i_both(v); let t = i_text(v); let fs = i_fs(v);
    l_prefix_take(t, s); l_g_equiv(b, z.ls, v.raw);
    assert(t.take(cs) =~= b);
    assert(s.take(cs) =~= b) by { assert forall|i: int| 0 <= i < cs implies s[i] == b[i] by { assert(t.take(cs)[i] == b[i]); } }
    assert(s.take(z.hs) =~= v.code) by { assert forall|i: int| 0 <= i < z.hs implies s[i] == v.code[i] by { assert(b.take(z.hs)[i] == v.code[i]); assert(s.take(cs)[i] == b[i]); } }
    assert(s[0] == v.code[0]) by { assert(s.take(z.hs)[0] == v.code[0]); }
    assert(s.subrange(cs, fs) =~= b64e(zeros(g_p(cs, z.ls)) + v.raw).skip(cs % 4));
    l_g_dec(b, z.ls, v.raw);
}
pub proof fn l_i_soft(code: Seq<u8>, z: ISz, both: Seq<u8>, raw: Seq<u8>)
    requires i_sz(code) == Some(z), both.len() == z.hs + z.ss, both.take(z.hs) == code, i_soft(code, z, both).is_some()
    ensures ({ let (index, ondex) = i_soft(code, z, both)->Some_0; let v = IV { code, raw, index, ondex };
        i_both(v) == both && all_b64(both) && 0 <= index < vpow(64, (z.ss - z.os) as nat) && 0 <= ondex && ondex == i_odx(code, z, index, ondex) && (z.os > 0 ==> ondex < vpow(64, z.os as nat)) })
{
    l_isz(code);
    let cs = z.hs + z.ss; let idx = both.subrange(z.hs, cs - z.os); let odx = both.subrange(cs - z.os, cs);
    let (index, ondex) = i_soft(code, z, both)->Some_0; let v = IV { code, raw, index, ondex };
    l_dec_bounds(idx); l_enc_dec(idx); if z.os > 0 { l_dec_bounds(odx); l_enc_dec(odx); }
    assert forall|i: int| 0 <= i < cs implies b64i(#[trigger] both[i] as int) >= 0 by {
        if i < z.hs { assert(both.take(z.hs)[i] == both[i]); } else if i < cs - z.os { assert(idx[i - z.hs] == both[i]); } else { assert(odx[i - (cs - z.os)] == both[i]); } }
    assert(i_both(v) =~= both) by {
        assert forall|i: int| 0 <= i < cs implies i_both(v)[i] == both[i] by {
            if i < z.hs { assert(both.take(z.hs)[i] == both[i]); } else if i < cs - z.os { assert(idx[i - z.hs] == both[i]); } else { assert(odx[i - (cs - z.os)] == both[i]); } } }
}
#[verifier::spinoff_prover]
pub proof fn thm_i_text_canonical(s: Seq<u8>)
    requires i_parse(s).is_some()
    ensures ({ let v = i_parse(s)->Some_0; i_wf(v) && i_fs(v) <= s.len() && i_text(v) == s.take(i_fs(v)) })
{
    let hs = i_hard(s[0] as int)->Some_0; let code = s.take(hs); l_isz(code);
    let z = i_sz(code)->Some_0; let cs = z.hs + z.ss; let v = i_parse(s)->Some_0; let fs = i_fs(v);
    assert(s.take(cs).take(z.hs) =~= code);
    l_i_soft(code, z, s.take(cs), v.raw);
    let body = s.subrange(cs, fs);
    l_g_enc(cs, z.ls, body);
    assert(i_text(v) =~= s.take(fs));
}
pub proof fn thm_i_bin_roundtrip(v: IV, s: Seq<u8>)
    requires i_wf(v), i_bin(v).is_prefix_of(s)
    ensures i_bparse(s) == Some(v), i_bin(v).len() * 4 == i_fs(v) * 3
{
    l_i_both(v); l_isz(v.code);
    let z = i_sz(v.code)->Some_0; let cs = z.hs + z.ss; let b = i_both(v); let t = i_bin(v);
    l_prefix_take(t, s);
    l_g_bdec(b, z.ls, v.raw); l_g_equiv(b, z.ls, v.raw);
    l_sxs_prefix(t, s, cs, g_bcs(cs));
    l_sxs_take(s, z.hs, cs);
    assert(sxs(s, cs) == b);
    assert(sxs(s, z.hs) =~= v.code);
    assert(b64c(sx(s, 0)) == v.code[0]) by { reveal(sxs); assert(sxs(s, z.hs)[0] == v.code[0]); }
    let fs = i_fs(v);
    assert(s.take(fs * 3 / 4) =~= t);
}
pub proof fn thm_i_bin_canonical(s: Seq<u8>)
    requires i_bparse(s).is_some()
    ensures ({ let v = i_bparse(s)->Some_0; let n = i_fs(v) * 3 / 4; i_wf(v) && n <= s.len() && i_bin(v) == s.take(n) && i_bin(v).len() == n })
{
    let hs = i_hard(b64c(sx(s, 0)) as int)->Some_0; let code = sxs(s, hs); l_isz(code); l_sxs_valid(s, hs);
    let z = i_sz(code)->Some_0; let cs = z.hs + z.ss; let v = i_bparse(s)->Some_0; let fs = i_fs(v);
    l_sxs_valid(s, cs); l_sxs_take(s, hs, cs);
    l_i_soft(code, z, sxs(s, cs), v.raw);
    let n = fs * 3 / 4; let b = s.take(n);
    assert(fs % 4 == 0);
    l_g_benc(cs, z.ls, b);
    l_sxs_prefix(b, s, cs, g_bcs(cs));
    l_g_equiv(i_both(v), z.ls, v.raw);
}
// P: the two domains agree
pub proof fn thm_i_domains(v: IV)
    requires i_wf(v)
    ensures b64e(i_bin(v)) == i_text(v), b64d(i_text(v)) == i_bin(v)
{
    l_i_both(v); let z = i_sz(v.code)->Some_0;
    l_g_equiv(i_both(v), z.ls, v.raw); l_b64de(i_bin(v));
}
// P: constructors only build well formed values, of the requested code and indices
pub proof fn thm_i_new_wf(code: Seq<u8>, raw: Seq<u8>, index: int, ondex: Option<int>)
    requires i_new(code, raw, index, ondex).is_some(), index >= 0, ondex.is_some() ==> ondex->Some_0 >= 0
    ensures i_wf(i_new(code, raw, index, ondex)->Some_0), i_new(code, raw, index, ondex)->Some_0.index == index,
        ondex.is_some() ==> i_new(code, raw, index, ondex)->Some_0.ondex == ondex->Some_0
{
    l_isz(code); l_pow64(1); l_pow64(2); l_pow64(3);
    let z = i_sz(code)->Some_0;
    assert(z.os > 0 ==> z.ss - z.os == z.os);
}
pub open spec fn i_st(v: IV) -> bool { v.raw.len() < MAXLEN && v.index < 0x2000_0000 }
#[verifier::spinoff_prover]
pub proof fn l_i_bnds(s: Str)
    ensures
        s@.len() > 0 && i_hard(s@[0] as int).is_some() ==> s@[0] < 0x80 && ({ let hs = i_hard(s@[0] as int)->Some_0;
            hs <= s@.len() && i_sz(s@.take(hs)).is_some() ==> bnd(s@, hs) && ({ let z = i_sz(s@.take(hs))->Some_0; let cs = z.hs + z.ss;
                cs <= s@.len() && i_soft(s@.take(hs), z, s@.take(cs)).is_some() ==> bnd(s@, cs) && bnd(s@, cs - z.os) }) }),
        i_parse(s@).is_some() ==> i_fs(i_parse(s@)->Some_0) <= s@.len() && bnd(s@, i_fs(i_parse(s@)->Some_0)),
{
    broadcast use ax_str_bnd;
    let x = s@;
    if x.len() > 0 && i_hard(x[0] as int).is_some() {
        let hs = i_hard(x[0] as int)->Some_0;
        if hs <= x.len() && i_sz(x.take(hs)).is_some() {
            let code = x.take(hs);
            l_isz(code);
            assert(code[hs - 1] < 0x80);
            let z = i_sz(code)->Some_0; let cs = z.hs + z.ss;
            if cs <= x.len() && i_soft(code, z, x.take(cs)).is_some() {
                assert(x.take(cs).take(hs) =~= code);
                l_i_soft(code, z, x.take(cs), Seq::empty());
                assert(x.take(cs)[cs - 1] == x[cs - 1] && x.take(cs)[cs - z.os - 1] == x[cs - z.os - 1]);
                assert(b64i(x.take(cs)[cs - 1] as int) >= 0 && b64i(x.take(cs)[cs - z.os - 1] as int) >= 0);
            }
        }
    }
    if i_parse(x).is_some() {
        thm_i_text_canonical(x);
        let v = i_parse(x)->Some_0; let fs = i_fs(v);
        l_i_both(v); l_isz(v.code); l_g_equiv(i_both(v), i_sz(v.code)->Some_0.ls, v.raw);
        assert(x.take(fs)[fs - 1] == x[fs - 1]); assert(b64i(i_text(v)[fs - 1] as int) >= 0);
    }
}
pub open spec fn oint(o: Option<u32>) -> Option<int> { match o { Some(x) => Some(x as int), None => None } }
// ---- C24: the table -----------------------------------------------------------------------
pub open spec fn i_coded(c: Seq<u8>) -> bool { i_sz(c).is_some() }
pub open spec fn i_coded_cur(c: Seq<u8>) -> bool { i_sz(c).is_some() && i_cur(c) }
pub open spec fn i_coded_both(c: Seq<u8>) -> bool { i_sz(c).is_some() && i_both_lists(c) }
pub proof fn thm_i_table(c: Seq<u8>, d: Seq<u8>)
    requires i_sz(c).is_some(), i_sz(d).is_some()
    ensures ({ let z = i_sz(c)->Some_0; let cs = z.hs + z.ss; c.len() == z.hs && i_hard(c[0] as int) == Some(z.hs) && b64c(b64i(c[0] as int)) == c[0]
        && 0 <= z.os <= z.ss && z.ss - z.os > 0
        && (z.fs != -1 ==> z.fs % 4 == 0 && g_ok(cs, z.ls, (z.fs - cs) * 3 / 4 - z.ls))
        && (z.fs == -1 ==> cs % 4 == 0 && z.ls == 0) }),
        c.is_prefix_of(d) ==> c == d,
{
    l_isz(c); l_isz(d); l_b64ic(c[0]);
    if c.is_prefix_of(d) { l_prefix_take(c, d); assert(c =~= d); }
}
