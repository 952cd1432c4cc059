// ------------------------------------------------------------------------------------------
// Specification: counter (group framing) codes
// ------------------------------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn c_sz(c: Seq<u8>) -> Option<Sz> {
    if c.len() == 2 && c[0] == 45 && (65 <= c[1] <= 76 || c[1] == 86) { Some(Sz { hs: 2, ss: 2, ls: 0, fs: 4 }) } // -A .. -L, -V
    else if c == seq![45u8, 48u8, 86u8] { Some(Sz { hs: 3, ss: 5, ls: 0, fs: 8 }) } // -0V
    else if c == seq![45u8, 45u8, 65u8, 65u8, 65u8] { Some(Sz { hs: 5, ss: 3, ls: 0, fs: 8 }) } // --AAA
    else { None }
}
// hard size from the first two characters
pub open spec fn c_hard(a: int, b: int) -> Option<int> {
    if a != 45 { None } else if 65 <= b <= 76 || b == 86 { Some(2) } else if b == 48 { Some(3) } else if b == 45 { Some(5) } else { None }
}
pub broadcast proof fn l_csz(c: Seq<u8>)
    requires c_sz(c).is_some()
    ensures ({ let z = (#[trigger] c_sz(c))->Some_0;
        c.len() == z.hs && z.ls == 0 && z.fs == z.hs + z.ss && (z.fs == 4 || z.fs == 8) && all_b64(c) && ascii(c)
        && c_hard(c[0] as int, c[1] as int) == Some(z.hs) && (z.hs == 2 ==> z.ss == 2) && (z.hs == 3 ==> z.ss == 5) && (z.hs == 5 ==> z.ss == 3)
        && (z.hs == 2 || z.hs == 3 || z.hs == 5) })
{ reveal(c_sz); }
pub struct CV { pub code: Seq<u8>, pub count: int }
pub open spec fn c_wf(v: CV) -> bool { c_sz(v.code).is_some() && 0 <= v.count < vpow(64, c_sz(v.code)->Some_0.ss as nat) }
pub open spec fn c_text(v: CV) -> Seq<u8> { v.code + enc_int(v.count, c_sz(v.code)->Some_0.ss as nat) }
pub open spec fn c_bin(v: CV) -> Seq<u8> { bytes_of(c_text(v), c_sz(v.code)->Some_0.fs * 3 / 4) }
pub open spec fn c_new(code: Seq<u8>, count: int) -> Option<CV> { if c_wf(CV { code, count }) { Some(CV { code, count }) } else { None } }
pub open spec fn c_parse(s: Seq<u8>) -> Option<CV> {
    if s.len() < 2 || c_hard(s[0] as int, s[1] as int).is_none() { None } else {
        let hs = c_hard(s[0] as int, s[1] as int)->Some_0;
        if s.len() < hs || c_sz(s.take(hs)).is_none() { None } else {
            let z = c_sz(s.take(hs))->Some_0;
            if s.len() < z.fs || !all_b64(s.subrange(hs, z.fs)) { None } else { Some(CV { code: s.take(hs), count: dec_int(s.subrange(hs, z.fs)) }) }
        }
    }
}
pub open spec fn c_bparse(b: Seq<u8>) -> Option<CV> {
    if b.len() < 2 || c_hard(b64c(sx(b, 0)) as int, b64c(sx(b, 1)) as int).is_none() { None } else {
        let hs = c_hard(b64c(sx(b, 0)) as int, b64c(sx(b, 1)) as int)->Some_0;
        let code = sxs(b, hs);
        if b.len() < (hs + 1) * 3 / 4 || c_sz(code).is_none() { None } else {
            let z = c_sz(code)->Some_0;
            if b.len() < z.fs * 3 / 4 { None } else { Some(CV { code, count: dec_int(sxs(b, z.fs).subrange(hs, z.fs)) }) }
        }
    }
}
// ---- theorems --------------------------------------------------------------------------------
pub proof fn l_c_text(v: CV)
    requires c_wf(v)
    ensures ({ let z = c_sz(v.code)->Some_0; let t = c_text(v); t.len() == z.fs && all_b64(t) && ascii(t) && t.take(z.hs) == v.code
        && t.subrange(z.hs, z.fs) == enc_int(v.count, z.ss as nat) && c_bin(v).len() * 4 == z.fs * 3 && b64e(c_bin(v)) == t })
{
    l_csz(v.code);
    let z = c_sz(v.code)->Some_0; let t = c_text(v); let e = enc_int(v.count, z.ss as nat);
    l_enc_len(v.count, z.ss as nat); l_enc_b64(v.count, z.ss as nat);
    assert(t.take(z.hs) =~= v.code);
    assert(t.subrange(z.hs, z.fs) =~= e);
    assert forall|i: int| 0 <= i < t.len() implies b64i(#[trigger] t[i] as int) >= 0 && t[i] < 0x80 by { if i < z.hs { assert(t[i] == v.code[i]); } else { assert(t[i] == e[i - z.hs]); } }
    reveal(bytes_of);
    l_b64ed(t);
}
// C06: reading back the text form, whatever follows
pub proof fn thm_c_text_roundtrip(v: CV, s: Seq<u8>)
    requires c_wf(v), c_text(v).is_prefix_of(s)
    ensures c_parse(s) == Some(v)
{
    l_c_text(v); l_csz(v.code); l_prefix_take(c_text(v), s);
    let z = c_sz(v.code)->Some_0; let t = c_text(v);
    assert(s.take(z.hs) =~= t.take(z.hs));
    assert(s[0] == v.code[0] && s[1] == v.code[1]) by { assert(t[0] == v.code[0] && t[1] == v.code[1]); }
    assert(s.subrange(z.hs, z.fs) =~= t.subrange(z.hs, z.fs));
    l_dec_enc(v.count, z.ss as nat); l_enc_b64(v.count, z.ss as nat);
}
// C06: what the text parser accepts is canonical
pub proof fn thm_c_text_canonical(s: Seq<u8>)
    requires c_parse(s).is_some()
    ensures ({ let v = c_parse(s)->Some_0; let z = c_sz(v.code)->Some_0; c_wf(v) && z.fs <= s.len() && c_text(v) == s.take(z.fs) })
{
    let hs = c_hard(s[0] as int, s[1] as int)->Some_0; let code = s.take(hs); l_csz(code);
    let z = c_sz(code)->Some_0; let soft = s.subrange(hs, z.fs);
    l_dec_bounds(soft); l_enc_dec(soft);
    assert(c_text(c_parse(s)->Some_0) =~= s.take(z.fs));
}
// C06: reading back the binary form, whatever follows
pub proof fn thm_c_bin_roundtrip(v: CV, s: Seq<u8>)
    requires c_wf(v), c_bin(v).is_prefix_of(s)
    ensures c_bparse(s) == Some(v)
{
    l_c_text(v); l_csz(v.code); let t = c_bin(v); l_prefix_take(t, s);
    let z = c_sz(v.code)->Some_0; let x = c_text(v);
    l_sxs_of_b64e(t, z.fs);
    assert(x.take(z.fs) =~= x);
    l_sxs_take(t, z.hs, z.fs);
    l_sxs_prefix(t, s, z.fs, z.fs * 3 / 4);
    l_sxs_take(s, z.hs, z.fs); l_sxs_take(s, 2, z.fs);
    assert(sxs(s, 2)[0] == x[0] && sxs(s, 2)[1] == x[1]) by { assert(sxs(s, z.fs).take(2)[0] == x[0]); assert(sxs(s, z.fs).take(2)[1] == x[1]); }
    assert(b64c(sx(s, 0)) == x[0] && b64c(sx(s, 1)) == x[1]) by { reveal(sxs); }
    assert(x[0] == v.code[0] && x[1] == v.code[1]) by { assert(x.take(z.hs)[0] == x[0]); assert(x.take(z.hs)[1] == x[1]); }
    l_dec_enc(v.count, z.ss as nat);
}
// the first n characters of the base64 text are the first n sextets
pub proof fn l_sxs_of_b64e(t: Seq<u8>, n: int)
    requires t.len() % 3 == 0, 0 <= n <= b64e(t).len()
    ensures sxs(t, n) == b64e(t).take(n)
{
    reveal(sxs); reveal(b64e);
    assert(sxs(t, n) =~= b64e(t).take(n));
}
// C06: what the binary parser accepts is canonical
pub proof fn thm_c_bin_canonical(s: Seq<u8>)
    requires c_bparse(s).is_some()
    ensures ({ let v = c_bparse(s)->Some_0; let n = c_sz(v.code)->Some_0.fs * 3 / 4; c_wf(v) && n <= s.len() && c_bin(v) == s.take(n) })
{
    let v = c_bparse(s)->Some_0; l_csz(v.code); let z = c_sz(v.code)->Some_0; let n = z.fs * 3 / 4; let both = sxs(s, z.fs);
    assert(v.code.len() == c_hard(b64c(sx(s, 0)) as int, b64c(sx(s, 1)) as int)->Some_0) by { reveal(sxs); }
    l_sxs_valid(s, z.fs); l_sxs_take(s, z.hs, z.fs);
    let soft = both.subrange(z.hs, z.fs);
    assert(all_b64(soft)) by { assert forall|i: int| 0 <= i < soft.len() implies b64i(#[trigger] soft[i] as int) >= 0 by { assert(soft[i] == both[i + z.hs]); } }
    l_dec_bounds(soft); l_enc_dec(soft);
    assert(c_text(v) =~= both) by { assert(both.take(z.hs) == v.code); assert forall|i: int| 0 <= i < z.fs implies c_text(v)[i] == both[i] by { if i < z.hs { assert(both.take(z.hs)[i] == both[i]); } else { assert(soft[i - z.hs] == both[i]); } } }
    l_code_bytes(s, z.fs);
}
// ---- semantic versions -------------------------------------------------------------------------
pub open spec fn sv_part(s: Seq<u8>) -> Option<int> {
    match p_i8(s) { Some(n) => if n < 0 { None } else { Some(n) }, None => if s.len() == 0 { Some(0) } else { None } }
}
pub open spec fn sv_ok(parts: Seq<Seq<u8>>) -> bool {
    parts.len() <= 3 && forall|i: int| 0 <= i < parts.len() ==> sv_part(#[trigger] parts[i]).is_some() && sv_part(parts[i])->Some_0 <= 63
}
pub open spec fn sv_get(parts: Seq<Seq<u8>>, i: int) -> int { if 0 <= i < parts.len() { sv_part(parts[i])->Some_0 } else { 0 } }
pub open spec fn sv_upto(v: Seq<Seq<u8>>, parts: Seq<u8>, k: int) -> bool {
    forall|i: int| 0 <= i < k ==> sv_part(#[trigger] v[i]) == Some(parts[i] as int)
}
pub proof fn l_sv_step(v: Seq<Seq<u8>>, p0: Seq<u8>, p1: Seq<u8>, k: int)
    requires sv_upto(v, p0, k), 0 <= k < v.len(), k < p0.len(), p1 == p0.update(k, p1[k]), sv_part(v[k]) == Some(p1[k] as int)
    ensures sv_upto(v, p1, k + 1)
{
    assert forall|i: int| 0 <= i < k + 1 implies sv_part(#[trigger] v[i]) == Some(p1[i] as int) by { if i < k { assert(p0[i] == p1[i]); } }
}
pub open spec fn sv_text(a: int, b: int, c: int) -> Seq<u8> { seq![b64c(a), b64c(b), b64c(c)] }
pub proof fn l_sv_join(out: Seq<Str>, p: Seq<u8>)
    requires out.len() == 3, p.len() == 3, forall|i: int| 0 <= i < 3 ==> (#[trigger] out[i])@ == enc_int(p[i] as int, 1), p[0] <= 63, p[1] <= 63, p[2] <= 63
    ensures joined(Seq::new(3, |i: int| out[i]@), Seq::empty()) == sv_text(p[0] as int, p[1] as int, p[2] as int)
{
    reveal_with_fuel(enc_int, 2); reveal_with_fuel(joined, 4);
    let s = Seq::new(3, |i: int| out[i]@);
    assert(s[0] =~= seq![b64c(p[0] as int)]); assert(s[1] =~= seq![b64c(p[1] as int)]); assert(s[2] =~= seq![b64c(p[2] as int)]);
    assert(s.drop_last().drop_last().len() == 1);
    assert(joined(s, Seq::empty()) =~= sv_text(p[0] as int, p[1] as int, p[2] as int));
}
pub proof fn l_c_bnds(q: Str)
    ensures ({ let s = q@; c_parse(s).is_some() ==> {
        let hs = c_hard(s[0] as int, s[1] as int)->Some_0; let z = c_sz(s.take(hs))->Some_0; bnd(s, 2) && bnd(s, hs) && bnd(s, z.fs) && 0 <= dec_int(s.subrange(hs, z.fs)) < vpow(64, z.ss as nat) } })
{
    let s = q@;
    if c_parse(s).is_some() {
        let hs = c_hard(s[0] as int, s[1] as int)->Some_0; let code = s.take(hs); l_csz(code); let z = c_sz(code)->Some_0;
        let soft = s.subrange(hs, z.fs);
        ax_str_bnd(q, 2);
        assert(code[hs - 1] < 0x80); ax_str_bnd(q, hs);
        assert(b64i(soft[z.ss - 1] as int) >= 0); ax_str_bnd(q, z.fs);
        l_dec_bounds(soft);
    }
}
pub proof fn l_i8_empty(s: Seq<u8>)
    ensures s.len() == 0 ==> p_i8(s).is_none(), p_i8(s).is_some() ==> -128 <= p_i8(s)->Some_0 <= 127
{
    if s.len() > 0 { l_dec_val_nn(s.skip(1)); } l_dec_val_nn(s);
}
pub proof fn l_dec_val_nn(s: Seq<u8>)
    ensures all_dig(s) || s.len() == 0 ==> dec_val(s) >= 0
    decreases s.len()
{
    if s.len() > 0 && all_dig(s) { let d = s.drop_last(); if d.len() > 0 { assert(all_dig(d)) by { assert forall|i: int| 0 <= i < d.len() implies 48 <= #[trigger] d[i] <= 57 by { assert(d[i] == s[i]); } } } l_dec_val_nn(d); assert(48 <= s[s.len() - 1] <= 57); }
}
// ---- C24: the table -----------------------------------------------------------------------
pub open spec fn c_coded(c: Seq<u8>) -> bool { c_sz(c).is_some() }
pub proof fn thm_c_table(c: Seq<u8>, d: Seq<u8>)
    requires c_sz(c).is_some(), c_sz(d).is_some()
    ensures ({ let z = c_sz(c)->Some_0; c.len() == z.hs && c_hard(c[0] as int, c[1] as int) == Some(z.hs) && b64c(b64i(c[0] as int)) == c[0] && b64c(b64i(c[1] as int)) == c[1]
        && z.fs % 4 == 0 && z.fs == z.hs + z.ss && z.ls == 0 && z.ss > 0 }),
        c.is_prefix_of(d) ==> c == d,
{
    l_csz(c); l_csz(d); l_b64ic(c[0]); l_b64ic(c[1]);
    if c.is_prefix_of(d) { l_prefix_take(c, d); assert(c =~= d); }
}
