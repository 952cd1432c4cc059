// ------------------------------------------------------------------------------------------
// Specification: qualified material in general (code text `both`, `ls` lead bytes, raw bytes)
// ------------------------------------------------------------------------------------------
pub open spec fn g_p(cs: int, ls: int) -> int { if cs % 4 != 0 { cs % 4 } else { ls } }
pub open spec fn g_ok(cs: int, ls: int, n: int) -> bool {
    &&& 0 <= cs && 0 <= ls <= 2 && cs % 4 != 3 && (cs % 4 != 0 ==> ls == 0) && n >= 0
    &&& (g_p(cs, ls) + n) % 3 == 0
}
pub open spec fn g_text(both: Seq<u8>, ls: int, raw: Seq<u8>) -> Seq<u8> {
    both + b64e(zeros(g_p(both.len() as int, ls)) + raw).skip(both.len() as int % 4)
}
pub open spec fn g_bcs(cs: int) -> int { (cs + 1) * 3 / 4 }
pub open spec fn g_bin(both: Seq<u8>, ls: int, raw: Seq<u8>) -> Seq<u8> {
    bytes_of(both, g_bcs(both.len() as int)) + zeros(ls) + raw
}
pub open spec fn aaa(n: int) -> Seq<u8> { rep(65u8, n) }
pub open spec fn g_paw(cs: int, body: Seq<u8>) -> Seq<u8> { b64d(aaa(cs % 4) + body) }
pub open spec fn all_zero(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == 0 }
// text decoding of the part after the code
pub open spec fn g_dec(cs: int, ls: int, body: Seq<u8>) -> Option<Seq<u8>> {
    let paw = g_paw(cs, body);
    let p = g_p(cs, ls);
    if all_b64(body) && p <= paw.len() && all_zero(paw.take(p)) { Some(paw.skip(p)) } else { None }
}
// binary decoding of the whole qualified value (code bytes included)
pub open spec fn g_bdec(cs: int, ls: int, b: Seq<u8>) -> Option<Seq<u8>> {
    let bcs = g_bcs(cs);
    if bcs + ls <= b.len()
        && (cs % 4 == 1 ==> b[bcs - 1] % 4 == 0) && (cs % 4 == 2 ==> b[bcs - 1] % 16 == 0)
        && (cs % 4 == 0 ==> all_zero(b.subrange(bcs, bcs + ls))) { Some(b.skip(bcs + ls)) } else { None }
}

pub proof fn l_sx_ext(a: Seq<u8>, b: Seq<u8>, i: int, j: int)
    requires i % 4 == j % 4, i >= 0, j >= 0,
        i % 4 == 0 ==> byt(a, 3 * (i / 4)) == byt(b, 3 * (j / 4)),
        i % 4 == 1 ==> byt(a, 3 * (i / 4)) % 4 == byt(b, 3 * (j / 4)) % 4 && byt(a, 3 * (i / 4) + 1) == byt(b, 3 * (j / 4) + 1),
        i % 4 == 2 ==> byt(a, 3 * (i / 4) + 1) % 16 == byt(b, 3 * (j / 4) + 1) % 16 && byt(a, 3 * (i / 4) + 2) == byt(b, 3 * (j / 4) + 2),
        i % 4 == 3 ==> byt(a, 3 * (i / 4) + 2) == byt(b, 3 * (j / 4) + 2),
    ensures sx(a, i) == sx(b, j)
{}
pub proof fn l_sxt_b(s: Seq<u8>, i: int)
    requires all_b64(s)
    ensures 0 <= sxt(s, i) < 64
{ if 0 <= i < s.len() { l_b64ic(s[i]); } }
// by() always stays within a byte on valid text
pub proof fn l_by_val(s: Seq<u8>, g: int)
    requires all_b64(s), g >= 0
    ensures by(s, 3 * g) as int == sxt(s, 4 * g) * 4 + sxt(s, 4 * g + 1) / 16,
        by(s, 3 * g + 1) as int == (sxt(s, 4 * g + 1) % 16) * 16 + sxt(s, 4 * g + 2) / 4,
        by(s, 3 * g + 2) as int == (sxt(s, 4 * g + 2) % 4) * 64 + sxt(s, 4 * g + 3),
{
    l_sxt_b(s, 4 * g); l_sxt_b(s, 4 * g + 1); l_sxt_b(s, 4 * g + 2); l_sxt_b(s, 4 * g + 3);
    l_by_group(s, g);
}
// the code characters come back from the code bytes
pub proof fn l_code_sx(both: Seq<u8>, x: Seq<u8>, i: int)
    requires all_b64(both), both.len() % 4 != 3, 0 <= i < both.len(), x.len() >= g_bcs(both.len() as int),
        x.take(g_bcs(both.len() as int)) == bytes_of(both, g_bcs(both.len() as int))
    ensures b64c(sx(x, i)) == both[i]
{
    reveal(bytes_of);
    let cs = both.len() as int; let n = g_bcs(cs); let g = i / 4;
    l_by_val(both, g);
    l_sxt_b(both, 4 * g); l_sxt_b(both, 4 * g + 1); l_sxt_b(both, 4 * g + 2); l_sxt_b(both, 4 * g + 3);
    l_grp4(sxt(both, 4 * g), sxt(both, 4 * g + 1), sxt(both, 4 * g + 2), sxt(both, 4 * g + 3));
    assert forall|j: int| 0 <= j < n implies x[j] == by(both, j) by { assert(x.take(n)[j] == bytes_of(both, n)[j]); }
    l_b64ic(both[i]);
    assert(sx(x, i) == sxt(both, i)) by {
        if i % 4 == 0 { assert(3 * g < n); assert(byt(x, 3 * g) == by(both, 3 * g)); }
        else if i % 4 == 1 { assert(3 * g + 1 < n); assert(byt(x, 3 * g) == by(both, 3 * g)); assert(byt(x, 3 * g + 1) == by(both, 3 * g + 1)); }
        else if i % 4 == 2 { assert(3 * g + 2 < n); assert(byt(x, 3 * g + 1) == by(both, 3 * g + 1)); assert(byt(x, 3 * g + 2) == by(both, 3 * g + 2)); }
        else { assert(3 * g + 2 < n); assert(byt(x, 3 * g + 2) == by(both, 3 * g + 2)); }
    }
}
// pad bits of the code bytes are zero
pub proof fn l_code_pad(both: Seq<u8>)
    requires all_b64(both), both.len() % 4 == 1 || both.len() % 4 == 2
    ensures ({ let n = g_bcs(both.len() as int); n >= 1 && bytes_of(both, n).len() == n
        && (both.len() % 4 == 1 ==> bytes_of(both, n)[n - 1] % 4 == 0) && (both.len() % 4 == 2 ==> bytes_of(both, n)[n - 1] % 16 == 0) })
{
    reveal(bytes_of);
    let cs = both.len() as int; let n = g_bcs(cs); let g = cs / 4;
    l_by_val(both, g);
    l_sxt_b(both, 4 * g); l_sxt_b(both, 4 * g + 1); l_sxt_b(both, 4 * g + 2);
    if cs % 4 == 1 { assert(n - 1 == 3 * g); } else { assert(n - 1 == 3 * g + 1); }
}
// text and binary forms are the same bits
#[verifier::spinoff_prover]
pub proof fn l_g_equiv(both: Seq<u8>, ls: int, raw: Seq<u8>)
    requires all_b64(both), g_ok(both.len() as int, ls, raw.len() as int)
    ensures b64e(g_bin(both, ls, raw)) == g_text(both, ls, raw), g_bin(both, ls, raw).len() % 3 == 0,
        g_bin(both, ls, raw).len() == g_bcs(both.len() as int) + ls + raw.len(),
        g_text(both, ls, raw).len() * 3 == g_bin(both, ls, raw).len() * 4, all_b64(g_text(both, ls, raw)),
{
    let cs = both.len() as int; let n = g_bcs(cs); let q = cs / 4; let m = cs % 4; let p = g_p(cs, ls);
    let cb = bytes_of(both, n);
    assert(cb.len() == n) by { reveal(bytes_of); }
    let x = g_bin(both, ls, raw);
    let y = zeros(p) + raw;
    assert(n == 3 * q + m);
    assert(x.len() == n + ls + raw.len());
    assert(x.len() == 3 * q + y.len());
    l_b64e_len(x); l_b64e_len(y); l_b64e_valid(x); l_b64e_valid(y);
    let t = g_text(both, ls, raw);
    assert(t.len() == cs + b64e(y).len() - m);
    assert(t.len() * 3 == x.len() * 4);
    if m != 0 { l_code_pad(both); }
    assert(x.take(n) =~= cb);
    assert forall|j: int| m <= j implies byt(x, 3 * q + j) == byt(y, j) by {
        if j < p { assert(m == 0); } 
    }
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] b64e(x)[i] == t[i] by {
        reveal(b64e);
        if i < cs { l_code_sx(both, x, i); assert(t[i] == both[i]); }
        else {
            let i2 = i - cs + m;
            assert(i2 == i - 4 * q);
            assert(t[i] == b64e(y)[i2]);
            assert(i2 / 4 == i / 4 - q && i2 % 4 == i % 4);
            let g2 = i2 / 4;
            assert(3 * (i / 4) == 3 * q + 3 * g2);
            if m == 1 { assert(x[n - 1] == cb[n - 1]); assert(y[0] == 0); assert(byt(x, 3 * q) % 4 == byt(y, 0) % 4); }
            if m == 2 { assert(x[n - 1] == cb[n - 1]); assert(y[1] == 0); assert(byt(x, 3 * q + 1) % 16 == byt(y, 1) % 16); }
            assert(3 * g2 >= m || g2 == 0);
            assert(3 * g2 + 1 >= m || (g2 == 0 && m == 2));
            if 3 * g2 >= m { assert(byt(x, 3 * q + 3 * g2) == byt(y, 3 * g2)); }
            if 3 * g2 + 1 >= m { assert(byt(x, 3 * q + (3 * g2 + 1)) == byt(y, 3 * g2 + 1)); }
            assert(byt(x, 3 * q + (3 * g2 + 2)) == byt(y, 3 * g2 + 2));
            l_sx_ext(x, y, i, i2);
        }
    }
    assert(b64e(x) =~= t);
}
pub proof fn l_zero_sx(y: Seq<u8>, m: int, i: int)
    requires 0 <= i < m <= 2, m <= y.len(), all_zero(y.take(m))
    ensures sx(y, i) == 0
{
    let t = y.take(m);
    assert(t.len() == m);
    assert(t[0] == y[0]); assert(t[0] == 0);
    if m == 2 { assert(t[1] == y[1]); assert(t[1] == 0); }
}
// decoding inverts encoding (text)
pub proof fn l_g_dec(both: Seq<u8>, ls: int, raw: Seq<u8>)
    requires g_ok(both.len() as int, ls, raw.len() as int)
    ensures g_dec(both.len() as int, ls, b64e(zeros(g_p(both.len() as int, ls)) + raw).skip(both.len() as int % 4)) == Some(raw)
{
    let cs = both.len() as int; let m = cs % 4; let p = g_p(cs, ls);
    let y = zeros(p) + raw; let t = b64e(y);
    l_b64e_len(y); l_b64e_valid(y); l_b64de(y);
    assert(y.take(p) =~= zeros(p));
    assert forall|i: int| 0 <= i < m implies t[i] == 65 by { reveal(b64e); assert(y.take(m) =~= zeros(m)); l_zero_sx(y, m, i); }
    assert(y.len() >= m); 
    assert(aaa(m) + t.skip(m) =~= t);
    assert(y.skip(p) =~= raw);
    assert(all_b64(t.skip(m)));
}
// encoding inverts decoding (text): what is accepted is canonical
pub proof fn l_g_enc(cs: int, ls: int, body: Seq<u8>)
    requires g_dec(cs, ls, body).is_some(), (cs + body.len()) % 4 == 0, 0 <= cs, 0 <= ls <= 2, cs % 4 != 3, cs % 4 != 0 ==> ls == 0
    ensures ({ let raw = g_dec(cs, ls, body)->Some_0;
        body == b64e(zeros(g_p(cs, ls)) + raw).skip(cs % 4) && g_ok(cs, ls, raw.len() as int) 
        && raw.len() + g_p(cs, ls) == (cs % 4 + body.len()) * 3 / 4 })
{
    let m = cs % 4; let p = g_p(cs, ls); let paw = g_paw(cs, body); let raw = paw.skip(p);
    let s = aaa(m) + body;
    assert(all_b64(s)) by { assert forall|i: int| 0 <= i < s.len() implies b64i(#[trigger] s[i] as int) >= 0 by { if i >= m { assert(s[i] == body[i - m]); } } }
    l_b64ed(s);
    assert(zeros(p) + raw =~= paw) by { assert forall|i: int| 0 <= i < p implies paw[i] == 0 by { assert(paw.take(p)[i] == 0); } }
    assert(s.skip(m) =~= body);
}
// binary: decoding inverts encoding
pub proof fn l_g_bdec(both: Seq<u8>, ls: int, raw: Seq<u8>)
    requires all_b64(both), g_ok(both.len() as int, ls, raw.len() as int)
    ensures g_bdec(both.len() as int, ls, g_bin(both, ls, raw)) == Some(raw), sxs(g_bin(both, ls, raw), both.len() as int) == both
{
    reveal(sxs);
    let cs = both.len() as int; let n = g_bcs(cs); let x = g_bin(both, ls, raw);
    assert(bytes_of(both, n).len() == n) by { reveal(bytes_of); }
    assert(x.take(n) =~= bytes_of(both, n));
    if cs % 4 != 0 { l_code_pad(both); assert(x[n - 1] == bytes_of(both, n)[n - 1]); }
    assert(x.subrange(n, n + ls) =~= zeros(ls));
    assert(x.skip(n + ls) =~= raw);
    assert forall|i: int| 0 <= i < cs implies sxs(x, cs)[i] == both[i] by { l_code_sx(both, x, i); }
    assert(sxs(x, cs) =~= both);
}
pub broadcast proof fn l_sxs_valid(b: Seq<u8>, n: int)
    requires n >= 0
    ensures all_b64(#[trigger] sxs(b, n)), sxs(b, n).len() == n, ascii(sxs(b, n))
{
    reveal(sxs);
    assert forall|i: int| 0 <= i < n implies b64i(#[trigger] sxs(b, n)[i] as int) >= 0 && sxs(b, n)[i] < 0x80 by { l_sx_bounds(b, i); l_b64ci(sx(b, i)); }
}
// bytes of the code text of a binary value
pub proof fn l_by_sxs_full(b: Seq<u8>, cs: int, g: int)
    requires 0 <= g, 4 * g + 3 < cs, 3 * g + 2 < b.len()
    ensures by(sxs(b, cs), 3 * g) == b[3 * g], by(sxs(b, cs), 3 * g + 1) == b[3 * g + 1], by(sxs(b, cs), 3 * g + 2) == b[3 * g + 2]
{
    let both = sxs(b, cs);
    l_sxs_valid(b, cs); l_by_val(both, g);
    l_sxt_sxs(b, cs, 4 * g); l_sxt_sxs(b, cs, 4 * g + 1); l_sxt_sxs(b, cs, 4 * g + 2); l_sxt_sxs(b, cs, 4 * g + 3);
    assert((4 * g) / 4 == g && (4 * g + 1) / 4 == g && (4 * g + 2) / 4 == g && (4 * g + 3) / 4 == g);
    assert((4 * g) % 4 == 0 && (4 * g + 1) % 4 == 1 && (4 * g + 2) % 4 == 2 && (4 * g + 3) % 4 == 3);
    l_grp3(b[3 * g], b[3 * g + 1], b[3 * g + 2]);
}
pub proof fn l_sxt_sxs(b: Seq<u8>, cs: int, i: int)
    requires 0 <= i, 0 <= cs
    ensures sxt(sxs(b, cs), i) == (if i < cs { sx(b, i) } else { 0 })
{ reveal(sxs); l_sx_bounds(b, i); l_b64ci(sx(b, i)); }
pub proof fn l_by_sxs_1(b: Seq<u8>, cs: int, g: int)
    requires 0 <= g, cs == 4 * g + 1, 3 * g < b.len(), b[3 * g] % 4 == 0
    ensures by(sxs(b, cs), 3 * g) == b[3 * g]
{
    let both = sxs(b, cs);
    l_sxs_valid(b, cs); l_by_val(both, g);
    l_sxt_sxs(b, cs, 4 * g); l_sxt_sxs(b, cs, 4 * g + 1);
    assert((4 * g) / 4 == g && (4 * g) % 4 == 0);
}
pub proof fn l_by_sxs_2(b: Seq<u8>, cs: int, g: int)
    requires 0 <= g, cs == 4 * g + 2, 3 * g + 1 < b.len(), b[3 * g + 1] % 16 == 0
    ensures by(sxs(b, cs), 3 * g) == b[3 * g], by(sxs(b, cs), 3 * g + 1) == b[3 * g + 1]
{
    let both = sxs(b, cs);
    l_sxs_valid(b, cs); l_by_val(both, g);
    l_sxt_sxs(b, cs, 4 * g); l_sxt_sxs(b, cs, 4 * g + 1); l_sxt_sxs(b, cs, 4 * g + 2);
    assert((4 * g) / 4 == g && (4 * g) % 4 == 0 && (4 * g + 1) / 4 == g && (4 * g + 1) % 4 == 1);
    l_grp3(b[3 * g], b[3 * g + 1], 0);
}
pub proof fn l_code_bytes(b: Seq<u8>, cs: int)
    requires 0 <= cs, cs % 4 != 3, g_bcs(cs) <= b.len(), cs % 4 == 1 ==> b[g_bcs(cs) - 1] % 4 == 0, cs % 4 == 2 ==> b[g_bcs(cs) - 1] % 16 == 0
    ensures bytes_of(sxs(b, cs), g_bcs(cs)) == b.take(g_bcs(cs))
{
    let both = sxs(b, cs); let n = g_bcs(cs); let q = cs / 4; let m = cs % 4;
    assert(n == 3 * q + m);
    assert forall|j: int| 0 <= j < n implies by(both, j) == b[j] by {
        let g = j / 3;
        assert(j == 3 * g || j == 3 * g + 1 || j == 3 * g + 2);
        if g < q { l_by_sxs_full(b, cs, g); } else if m == 1 { l_by_sxs_1(b, cs, g); } else { l_by_sxs_2(b, cs, g); }
    }
    assert(bytes_of(both, n) =~= b.take(n)) by { reveal(bytes_of); }
}
// binary: what is accepted is canonical
pub proof fn l_g_benc(cs: int, ls: int, b: Seq<u8>)
    requires g_bdec(cs, ls, b).is_some(), b.len() % 3 == 0, 0 <= cs, 0 <= ls <= 2, cs % 4 != 3, cs % 4 != 0 ==> ls == 0
    ensures ({ let raw = g_bdec(cs, ls, b)->Some_0; b == g_bin(sxs(b, cs), ls, raw) && g_ok(cs, ls, raw.len() as int) && raw.len() == b.len() - g_bcs(cs) - ls })
{
    let both = sxs(b, cs); let n = g_bcs(cs); let raw = b.skip(n + ls);
    l_sxs_valid(b, cs); l_code_bytes(b, cs);
    assert(n == 3 * (cs / 4) + cs % 4);
    let x = g_bin(both, ls, raw);
    assert forall|i: int| n <= i < n + ls implies b[i] == 0 by { assert(cs % 4 == 0); assert(b.subrange(n, n + ls)[i - n] == 0); }
    assert forall|i: int| 0 <= i < n implies bytes_of(both, n)[i] == b[i] by { assert(b.take(n)[i] == b[i]); }
    assert(bytes_of(both, n).len() == n);
    assert(x =~= b);
}
pub proof fn l_prefix_take(a: Seq<u8>, s: Seq<u8>)
    requires a.is_prefix_of(s)
    ensures a.len() <= s.len(), s.take(a.len() as int) == a, forall|i: int| 0 <= i < a.len() ==> s[i] == a[i]
{ assert(s.take(a.len() as int) =~= a); assert forall|i: int| 0 <= i < a.len() implies s[i] == a[i] by { assert(s.take(a.len() as int)[i] == a[i]); } }

// ---- sequence plumbing (broadcast so that it does not depend on local names) -------------------
pub broadcast proof fn l_subsub(s: Seq<u8>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #![trigger s.subrange(a, b).subrange(c, d)] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
pub broadcast proof fn l_subfull(s: Seq<u8>, n: int)
    requires n == s.len()
    ensures #[trigger] s.subrange(0, n) == s
{ assert(s.subrange(0, n) =~= s); }
pub broadcast proof fn l_rep0(c: u8, n: int, x: Seq<u8>)
    requires n == 0
    ensures #[trigger] (rep(c, n) + x) == x
{ assert(rep(c, n) + x =~= x); }
pub broadcast proof fn l_aaa_b64(n: int, x: Seq<u8>)
    requires n >= 0
    ensures #![trigger rep(65u8, n) + x] all_b64(rep(65u8, n) + x) == all_b64(x), (rep(65u8, n) + x).len() == n + x.len()
{
    let s = rep(65u8, n) + x;
    if all_b64(x) { assert forall|i: int| 0 <= i < s.len() implies b64i(#[trigger] s[i] as int) >= 0 by { if i >= n { assert(s[i] == x[i - n]); } } }
    if all_b64(s) { assert forall|i: int| 0 <= i < x.len() implies b64i(#[trigger] x[i] as int) >= 0 by { assert(s[i + n] == x[i]); } }
}
pub broadcast proof fn l_paw_low(n: int, x: Seq<u8>)
    requires 0 <= n <= 2, all_b64(x), (n + x.len()) % 4 == 0
    ensures #![trigger b64d(rep(65u8, n) + x)]
        b64d(rep(65u8, n) + x).len() * 4 == (n + x.len()) * 3,
        n == 1 ==> b64d(rep(65u8, n) + x)[0] < 4,
        n == 2 ==> b64d(rep(65u8, n) + x)[0] == 0 && b64d(rep(65u8, n) + x)[1] < 16,
{
    let s = rep(65u8, n) + x;
    l_aaa_b64(n, x); l_b64ed(s);
    if n > 0 {
        l_by_val(s, 0); l_sxt_b(s, 1); l_sxt_b(s, 2);
        assert(s[0] == 65);
        if n == 2 { assert(s[1] == 65); }
        reveal(bytes_of);
        assert(b64d(s)[0] == by(s, 0)); 
        if n == 2 { assert(b64d(s)[1] == by(s, 1)); }
    }
}
// what decoding the text after the code yields, in the steps the parsers take
pub broadcast proof fn l_gdec_none(cs: int, ls: int, body: Seq<u8>)
    requires !all_b64(body)
    ensures (#[trigger] g_dec(cs, ls, body)).is_none()
{}
pub broadcast proof fn l_gdec_pad(cs: int, ls: int, body: Seq<u8>, dec: Seq<u8>)
    requires cs >= 0, cs % 4 == 1 || cs % 4 == 2, (cs % 4 + body.len()) % 4 == 0, b64e(dec) == rep(65u8, cs % 4) + body
    ensures #![trigger g_dec(cs, ls, body), b64e(dec)]
        !all_b64(body) ==> dec.len() != (cs % 4 + body.len()) * 3 / 4,
        all_b64(body) ==> dec.len() == (cs % 4 + body.len()) * 3 / 4 && dec.len() >= 3
            && 0 <= be_int(dec.take(cs % 4)) < (if cs % 4 == 1 { 4int } else { 16 })
            && g_dec(cs, ls, body) == (if be_int(dec.take(cs % 4)) == 0 { Some(dec.skip(cs % 4)) } else { None::<Seq<u8>> }),
{
    let p = cs % 4; let x = rep(65u8, p) + body;
    l_aaa_b64(p, body); l_b64e_len(dec); l_b64e_valid(dec);
    if all_b64(body) {
        assert(dec.len() % 3 == 0);
        l_b64de(dec); l_paw_low(p, body);
        let t = dec.take(p);
        l_be_zero(t);
        assert(t[0] == dec[0]); if p == 2 { assert(t[1] == dec[1]); }
    }
}
pub broadcast proof fn l_gdec_lead(cs: int, ls: int, body: Seq<u8>, dec: Seq<u8>)
    requires cs >= 0, cs % 4 == 0, 0 <= ls <= 2, body.len() % 4 == 0, b64e(dec) == body
    ensures #![trigger g_dec(cs, ls, body), b64e(dec)]
        !all_b64(body) ==> dec.len() != body.len() * 3 / 4,
        all_b64(body) ==> dec.len() == body.len() * 3 / 4
            && (ls <= dec.len() ==> 0 <= be_int(dec.take(ls)))
            && g_dec(cs, ls, body) == (if ls <= dec.len() && be_int(dec.take(ls)) == 0 { Some(dec.skip(ls)) } else { None::<Seq<u8>> }),
{
    l_rep0(65u8, 0, body); l_b64e_len(dec); l_b64e_valid(dec);
    if all_b64(body) {
        assert(dec.len() % 3 == 0);
        l_b64de(dec);
        if ls <= dec.len() { l_be_zero(dec.take(ls)); }
    }
}
pub open spec fn be_refs(s: Seq<&u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { be_refs(s.drop_last()) * 256 + *s.last() as int } }
pub broadcast proof fn l_be_refs(x: Seq<u8>)
    ensures #[trigger] be_refs(refs(x)) == be_int(x)
    decreases x.len()
{ if x.len() > 0 { l_be_refs(x.drop_last()); assert(refs(x).drop_last() =~= refs(x.drop_last())); } }
pub proof fn l_be_refs_step(s: Seq<&u8>, k: int)
    requires 0 <= k < s.len()
    ensures be_refs(s.take(k + 1)) == be_refs(s.take(k)) * 256 + *s[k] as int
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn l_be_refs_bound(s: Seq<&u8>, k: int)
    requires 0 <= k <= s.len(), k <= 2
    ensures k == 0 ==> be_refs(s.take(k)) == 0, 0 <= be_refs(s.take(k)) <= 65535, k <= 1 ==> be_refs(s.take(k)) <= 255
{ if k >= 1 { l_be_refs_step(s, 0); } if k == 2 { l_be_refs_step(s, 1); } assert(s.take(0).len() == 0); }
pub proof fn l_be_refs_full(s: Seq<&u8>)
    ensures be_refs(s.take(s.len() as int)) == be_refs(s)
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn l_be_zero(s: Seq<u8>)
    requires s.len() <= 2
    ensures (#[trigger] be_int(s) == 0) == all_zero(s), s.len() == 1 ==> be_int(s) == s[0], s.len() == 2 ==> be_int(s) == s[0] * 256 + s[1],
        0 <= be_int(s)
{ reveal_with_fuel(be_int, 3); }
pub broadcast proof fn l_mask_i32(p: i32, m: i32)
    ensures #![trigger p & m] 0 <= p < 4 && m == 3 ==> p & m == p, 0 <= p < 16 && m == 15 ==> p & m == p
{
    assert(0 <= p < 4 && m == 3 ==> p & m == p) by (bit_vector);
    assert(0 <= p < 16 && m == 15 ==> p & m == p) by (bit_vector);
}
pub broadcast proof fn l_mask_u8(p: u8, m: u8)
    ensures #![trigger p & m] m == 3 ==> p & m == p % 4, m == 15 ==> p & m == p % 16
{
    assert(m == 3 ==> p & m == p % 4) by (bit_vector);
    assert(m == 15 ==> p & m == p % 16) by (bit_vector);
}
pub broadcast proof fn l_shl_u8(p: u32)
    ensures #![trigger 1u8 << p] p == 2 ==> 1u8 << p == 4, p == 4 ==> 1u8 << p == 16, p < 8 ==> 1 <= 1u8 << p
{
    assert(p == 2 ==> 1u8 << p == 4) by (bit_vector);
    assert(p == 4 ==> 1u8 << p == 16) by (bit_vector);
    assert(p < 8 ==> 1 <= 1u8 << p) by (bit_vector);
}
pub broadcast proof fn l_shl_i32(p: u32)
    ensures #![trigger 1i32 << p] p == 2 ==> 1i32 << p == 4, p == 4 ==> 1i32 << p == 16, p < 31 ==> 1 <= 1i32 << p
{
    assert(p == 2 ==> 1i32 << p == 4) by (bit_vector);
    assert(p == 4 ==> 1i32 << p == 16) by (bit_vector);
    assert(p < 31 ==> 1 <= 1i32 << p) by (bit_vector);
}
pub broadcast proof fn l_splice_z(z: Seq<u8>, k: int, b: Seq<u8>)
    requires 0 <= k, z.len() == k + b.len(), all_zero(z)
    ensures #[trigger] splice(z, k, b) == zeros(k) + b
{ assert(splice(z, k, b) =~= zeros(k) + b); }
pub broadcast proof fn l_splice_full(z: Seq<u8>, b: Seq<u8>)
    requires z.len() == b.len()
    ensures #[trigger] splice(z, 0, b) == b
{ assert(splice(z, 0, b) =~= b); }
pub broadcast proof fn l_splice_2(z: Seq<u8>, a: Seq<u8>, k: int, b: Seq<u8>)
    requires a.len() <= k, z.len() == k + b.len(), all_zero(z)
    ensures #[trigger] splice(splice(z, 0, a), k, b) == a + zeros(k - a.len()) + b
{ assert(splice(splice(z, 0, a), k, b) =~= a + zeros(k - a.len()) + b); }
pub broadcast proof fn l_shl_code32(i: u32, t: u32)
    ensures #![trigger i << t]
        t == 0 ==> i << t == i, t == 2 && i <= 0xff_ffff ==> i << t == i * 4, t == 4 && i <= 0xff_ffff ==> i << t == i * 16, t == 6 && i <= 0xff_ffff ==> i << t == i * 64,
{
    assert(i << 0u32 == i) by (bit_vector);
    assert(i <= 0xff_ffff ==> i << 2u32 == i * 4) by (bit_vector);
    assert(i <= 0xff_ffff ==> i << 4u32 == i * 16) by (bit_vector);
    assert(i <= 0xff_ffff ==> i << 6u32 == i * 64) by (bit_vector);
}
pub broadcast proof fn l_shl_code64(i: u64, t: u32)
    ensures #![trigger i << t]
        t == 0 ==> i << t == i, t == 2 && i <= 0xfff_ffff_ffff ==> i << t == i * 4,
        t == 4 && i <= 0xfff_ffff_ffff ==> i << t == i * 16, t == 6 && i <= 0xfff_ffff_ffff ==> i << t == i * 64,
{
    assert(i << 0u32 == i) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 2u32 == i * 4) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 4u32 == i * 16) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 6u32 == i * 64) by (bit_vector);
}
// iterating over a run of bytes sees the bytes of that run
pub open spec fn all_zero_refs(s: Seq<&u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == 0 }
pub broadcast proof fn l_zero_refs(s: Seq<u8>)
    ensures all_zero_refs(#[trigger] refs(s)) == all_zero(s)
{
    if all_zero_refs(refs(s)) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == 0 by { assert(*refs(s)[i] == 0); } }
}
pub broadcast proof fn l_refs_run(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures #[trigger] refs(s).take(b).skip(a) == refs(s.subrange(a, b))
{ assert(refs(s).take(b).skip(a) =~= refs(s.subrange(a, b))); }
pub broadcast proof fn l_refs_run2(s: Seq<u8>, a: int, n: int)
    requires 0 <= a <= a + n <= s.len()
    ensures #[trigger] refs(s).skip(a).take(n) == refs(s.subrange(a, a + n))
{ assert(refs(s).skip(a).take(n) =~= refs(s.subrange(a, a + n))); }
