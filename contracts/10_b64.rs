// @noeq cesr::core::util cesr::core::matter cesr::core::matter::tables cesr::core::counter cesr::core::counter::tables cesr::core::indexer cesr::core::indexer::tables
// ------------------------------------------------------------------------------------------
// Specification: Base64 integers and Base64 text of byte strings
// ------------------------------------------------------------------------------------------
pub open spec fn b64c(i: int) -> u8 {
    if i < 26 { (65 + i) as u8 } else if i < 52 { (71 + i) as u8 } else if i < 62 { (i - 4) as u8 } else if i == 62 { 45u8 } else { 95u8 }
}
pub open spec fn b64i(c: int) -> int {
    if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 71 } else if 48 <= c <= 57 { c + 4 } else if c == 45 { 62 } else if c == 95 { 63 } else { -1 }
}
pub open spec fn all_b64(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> b64i(#[trigger] s[i] as int) >= 0 }

// n as `l` base64 digits, most significant first
#[verifier::opaque]
pub open spec fn enc_int(n: int, l: nat) -> Seq<u8> decreases l {
    if l == 0 { Seq::empty() } else { enc_int(n / 64, (l - 1) as nat).push(b64c(n % 64)) }
}
#[verifier::opaque]
pub open spec fn dec_int(s: Seq<u8>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { dec_int(s.drop_last()) * 64 + b64i(s.last() as int) }
}

// i-th 6-bit group of a byte string (zero bits beyond the end)
pub open spec fn byt(b: Seq<u8>, j: int) -> int { if 0 <= j < b.len() { b[j] as int } else { 0 } }
pub open spec fn sx(b: Seq<u8>, i: int) -> int {
    let k = 3 * (i / 4);
    if i % 4 == 0 { byt(b, k) / 4 }
    else if i % 4 == 1 { (byt(b, k) % 4) * 16 + byt(b, k + 1) / 16 }
    else if i % 4 == 2 { (byt(b, k + 1) % 16) * 4 + byt(b, k + 2) / 64 }
    else { byt(b, k + 2) % 64 }
}
// j-th byte of a sextet string (zero bits beyond the end)
pub open spec fn sxt(s: Seq<u8>, i: int) -> int { if 0 <= i < s.len() { b64i(s[i] as int) } else { 0 } }
pub open spec fn by(s: Seq<u8>, j: int) -> u8 {
    let k = 4 * (j / 3);
    (if j % 3 == 0 { sxt(s, k) * 4 + sxt(s, k + 1) / 16 }
    else if j % 3 == 1 { (sxt(s, k + 1) % 16) * 16 + sxt(s, k + 2) / 4 }
    else { (sxt(s, k + 2) % 4) * 64 + sxt(s, k + 3) }) as u8
}
#[verifier::opaque]
pub open spec fn bytes_of(s: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |j: int| by(s, j)) }
pub open spec fn b64d(s: Seq<u8>) -> Seq<u8> { bytes_of(s, (s.len() * 3 / 4) as int) }
// canonical url-safe base64, padded
#[verifier::opaque]
pub open spec fn b64e(x: Seq<u8>) -> Seq<u8> {
    Seq::new((4 * ((x.len() + 2) / 3)) as nat, |i: int| if 3 * i < 4 * x.len() { b64c(sx(x, i)) } else { 61u8 })
}
#[verifier::opaque]
pub open spec fn sxs(b: Seq<u8>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| b64c(sx(b, i))) }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }

// ---- lemmas --------------------------------------------------------------------------------
pub broadcast proof fn l_b64ci(i: int)
    requires 0 <= i < 64
    ensures b64i(#[trigger] b64c(i) as int) == i, b64c(i) < 0x80
{}
pub broadcast proof fn l_b64ic(c: u8)
    requires b64i(c as int) >= 0
    ensures #[trigger] b64i(c as int) < 64, b64c(b64i(c as int)) == c, c < 0x80
{}
pub broadcast proof fn l_pow64(e: nat)
    ensures e == 0 ==> vpow(64, e) == 1, e == 1 ==> vpow(64, e) == 64, e == 2 ==> vpow(64, e) == 4096,
        e == 3 ==> vpow(64, e) == 262144, e == 4 ==> vpow(64, e) == 16777216, e == 5 ==> vpow(64, e) == 1073741824,
        e == 6 ==> vpow(64, e) == 68719476736, e == 7 ==> vpow(64, e) == 4398046511104, e == 8 ==> vpow(64, e) == 281474976710656, #[trigger] vpow(64, e) >= 1,
        e == 11 ==> vpow(64, e) == 73786976294838206464,
        e >= 6 ==> vpow(64, e) >= 68719476736, e >= 11 ==> vpow(64, e) >= 73786976294838206464,
    decreases e
{
    reveal_with_fuel(vpow, 13);
    if e > 11 { l_pow64((e - 1) as nat); }
}
pub broadcast proof fn l_pow2(e: nat)
    requires e <= 8
    ensures #[trigger] vpow(2, e) == (if e == 0 { 1int } else if e == 1 { 2 } else if e == 2 { 4 } else if e == 3 { 8 } else if e == 4 { 16 }
        else if e == 5 { 32 } else if e == 6 { 64 } else if e == 7 { 128 } else { 256 })
{ reveal_with_fuel(vpow, 10); }

pub broadcast proof fn l_enc_len(n: int, l: nat)
    ensures (#[trigger] enc_int(n, l)).len() == l
    decreases l
{ reveal(enc_int); if l > 0 { l_enc_len(n / 64, (l - 1) as nat); } }
pub broadcast proof fn l_enc_b64(n: int, l: nat)
    requires n >= 0
    ensures all_b64(#[trigger] enc_int(n, l)), ascii(enc_int(n, l))
    decreases l
{
    reveal(enc_int);
    if l > 0 { l_enc_b64(n / 64, (l - 1) as nat); let p = enc_int(n / 64, (l - 1) as nat);
        l_b64ci(n % 64);
        assert forall|i: int| 0 <= i < l implies b64i(#[trigger] enc_int(n, l)[i] as int) >= 0 && enc_int(n, l)[i] < 0x80 by {
            l_enc_len(n / 64, (l - 1) as nat); if i < l - 1 { assert(enc_int(n, l)[i] == p[i]); }
        }
    }
}
pub broadcast proof fn l_dec_bounds(s: Seq<u8>)
    requires all_b64(s)
    ensures 0 <= #[trigger] dec_int(s) < vpow(64, s.len())
    decreases s.len()
{
    reveal(dec_int);
    if s.len() > 0 { assert(all_b64(s.drop_last())); l_dec_bounds(s.drop_last()); l_b64ic(s.last());
        assert(vpow(64, s.len()) == 64 * vpow(64, (s.len() - 1) as nat)); }
}
pub broadcast proof fn l_dec_enc(n: int, l: nat)
    requires 0 <= n < vpow(64, l)
    ensures #[trigger] dec_int(enc_int(n, l)) == n
    decreases l
{
    reveal(dec_int); reveal(enc_int);
    if l > 0 {
        l_dec_enc(n / 64, (l - 1) as nat); l_b64ci(n % 64);
        assert(enc_int(n, l).drop_last() =~= enc_int(n / 64, (l - 1) as nat));
    }
}
pub broadcast proof fn l_enc_dec(s: Seq<u8>)
    requires all_b64(s)
    ensures #[trigger] enc_int(dec_int(s), s.len()) == s
    decreases s.len()
{
    reveal(dec_int); reveal(enc_int);
    if s.len() > 0 {
        let p = s.drop_last();
        assert(all_b64(p)); l_enc_dec(p); l_b64ic(s.last());
        assert((dec_int(p) * 64 + b64i(s.last() as int)) / 64 == dec_int(p));
        assert((dec_int(p) * 64 + b64i(s.last() as int)) % 64 == b64i(s.last() as int));
        assert(p.push(s.last()) =~= s);
    } else { assert(s =~= Seq::empty()); }
}
// one digit step, used by the digit loops
pub proof fn l_enc_step(x: int, m: nat, out: Seq<u8>)
    requires m >= 1, x >= 0
    ensures enc_int(x, m) + out == enc_int(x / 64, (m - 1) as nat) + (seq![b64c(x % 64)] + out),
        x < vpow(64, m) ==> x / 64 < vpow(64, (m - 1) as nat)
{
    reveal(enc_int);
    assert(vpow(64, m) == 64 * vpow(64, (m - 1) as nat));
    assert(enc_int(x, m) + out =~= enc_int(x / 64, (m - 1) as nat) + (seq![b64c(x % 64)] + out));
}
pub proof fn l_enc_zero(x: int, out: Seq<u8>)
    ensures enc_int(x, 0) + out == out
{ reveal(enc_int); assert(Seq::<u8>::empty() + out =~= out); }
pub proof fn l_dec_step(s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures dec_int(s.take(k + 1)) == dec_int(s.take(k)) * 64 + b64i(s[k] as int)
{
    reveal(dec_int);
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn l_dec_mono(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), all_b64(s)
    ensures dec_int(s.take(k)) <= dec_int(s), dec_int(s.take(k)) >= 0
    decreases s.len() - k
{
    assert(all_b64(s.take(k)));
    l_dec_bounds(s.take(k));
    if k < s.len() {
        l_dec_mono(s, k + 1); l_dec_step(s, k); l_b64ic(s[k]);
    } else { assert(s.take(k) =~= s); }
}

pub broadcast proof fn l_sx_bounds(b: Seq<u8>, i: int)
    ensures 0 <= #[trigger] sx(b, i) < 64
{
    let k = 3 * (i / 4);
    let (x, y, z) = (byt(b, k), byt(b, k + 1), byt(b, k + 2));
    assert(0 <= x < 256 && 0 <= y < 256 && 0 <= z < 256);
}
pub broadcast proof fn l_b64e_len(x: Seq<u8>)
    ensures (#[trigger] b64e(x)).len() == 4 * ((x.len() + 2) / 3), x.len() % 3 == 0 ==> b64e(x).len() * 3 == x.len() * 4
{ reveal(b64e); }
pub broadcast proof fn l_b64e_valid(x: Seq<u8>)
    ensures ascii(#[trigger] b64e(x)), x.len() % 3 == 0 ==> all_b64(b64e(x)),
        x.len() % 3 != 0 ==> b64e(x).len() > 0 && b64e(x).last() == 61 && !all_b64(b64e(x))
{
    reveal(b64e);
    assert forall|i: int| 0 <= i < b64e(x).len() implies #[trigger] b64e(x)[i] < 0x80 by { l_sx_bounds(x, i); l_b64ci(sx(x, i)); }
    if x.len() % 3 == 0 {
        assert forall|i: int| 0 <= i < b64e(x).len() implies b64i(#[trigger] b64e(x)[i] as int) >= 0 by { l_sx_bounds(x, i); l_b64ci(sx(x, i)); }
    } else {
        assert(b64i(b64e(x)[b64e(x).len() - 1] as int) < 0);
    }
}
pub proof fn l_grp3(a: u8, b: u8, c: u8)
    ensures
        0 <= a as int / 4 < 64, 0 <= (a as int % 4) * 16 + b as int / 16 < 64, 0 <= (b as int % 16) * 4 + c as int / 64 < 64, 0 <= c as int % 64 < 64,
        (a as int / 4) * 4 + ((a as int % 4) * 16 + b as int / 16) / 16 == a,
        (((a as int % 4) * 16 + b as int / 16) % 16) * 16 + ((b as int % 16) * 4 + c as int / 64) / 4 == b,
        (((b as int % 16) * 4 + c as int / 64) % 4) * 64 + c as int % 64 == c,
{}
pub proof fn l_b64e_group(x: Seq<u8>, g: int)
    requires x.len() % 3 == 0, 0 <= g, 3 * g + 2 < x.len()
    ensures ({ let s = b64e(x); let (a, b, c) = (x[3 * g], x[3 * g + 1], x[3 * g + 2]);
        sxt(s, 4 * g) == a as int / 4 && sxt(s, 4 * g + 1) == (a as int % 4) * 16 + b as int / 16
        && sxt(s, 4 * g + 2) == (b as int % 16) * 4 + c as int / 64 && sxt(s, 4 * g + 3) == c as int % 64 })
{
    reveal(b64e);
    let s = b64e(x);
    let (a, b, c) = (x[3 * g], x[3 * g + 1], x[3 * g + 2]);
    l_grp3(a, b, c);
    assert(4 * g + 3 < s.len());
    assert((4 * g) / 4 == g && (4 * g + 1) / 4 == g && (4 * g + 2) / 4 == g && (4 * g + 3) / 4 == g);
    assert((4 * g) % 4 == 0 && (4 * g + 1) % 4 == 1 && (4 * g + 2) % 4 == 2 && (4 * g + 3) % 4 == 3);
    l_b64ci(a as int / 4); l_b64ci((a as int % 4) * 16 + b as int / 16); l_b64ci((b as int % 16) * 4 + c as int / 64); l_b64ci(c as int % 64);
    assert(s[4 * g] == b64c(sx(x, 4 * g))); assert(s[4 * g + 1] == b64c(sx(x, 4 * g + 1)));
    assert(s[4 * g + 2] == b64c(sx(x, 4 * g + 2))); assert(s[4 * g + 3] == b64c(sx(x, 4 * g + 3)));
}
// decode is a left inverse of encode
pub broadcast proof fn l_b64de(x: Seq<u8>)
    requires x.len() % 3 == 0
    ensures #[trigger] b64d(b64e(x)) == x
{
    let s = b64e(x);
    l_b64e_len(x);
    assert forall|j: int| 0 <= j < x.len() implies by(s, j) == x[j] by {
        let g = j / 3;
        l_b64e_group(x, g);
        l_grp3(x[3 * g], x[3 * g + 1], x[3 * g + 2]);
        l_by_group(s, g);
    }
    assert(b64d(s) =~= x) by { reveal(bytes_of); }
}
pub proof fn l_by_group(s: Seq<u8>, g: int)
    requires 0 <= g, 0 <= sxt(s, 4 * g) < 64, 0 <= sxt(s, 4 * g + 1) < 64, 0 <= sxt(s, 4 * g + 2) < 64, 0 <= sxt(s, 4 * g + 3) < 64
    ensures by(s, 3 * g) as int == sxt(s, 4 * g) * 4 + sxt(s, 4 * g + 1) / 16,
        by(s, 3 * g + 1) as int == (sxt(s, 4 * g + 1) % 16) * 16 + sxt(s, 4 * g + 2) / 4,
        by(s, 3 * g + 2) as int == (sxt(s, 4 * g + 2) % 4) * 64 + sxt(s, 4 * g + 3),
{}
pub proof fn l_grp4(p: int, q: int, r: int, t: int)
    requires 0 <= p < 64, 0 <= q < 64, 0 <= r < 64, 0 <= t < 64
    ensures ({ let a = p * 4 + q / 16; let b = (q % 16) * 16 + r / 4; let c = (r % 4) * 64 + t;
        0 <= a < 256 && 0 <= b < 256 && 0 <= c < 256
        && a / 4 == p && (a % 4) * 16 + b / 16 == q && (b % 16) * 4 + c / 64 == r && c % 64 == t })
{}
pub proof fn l_b64d_group(s: Seq<u8>, g: int)
    requires all_b64(s), s.len() % 4 == 0, 0 <= g, 4 * g + 3 < s.len()
    ensures ({ let x = b64d(s); 3 * g + 2 < x.len()
        && sx(x, 4 * g) == sxt(s, 4 * g) && sx(x, 4 * g + 1) == sxt(s, 4 * g + 1)
        && sx(x, 4 * g + 2) == sxt(s, 4 * g + 2) && sx(x, 4 * g + 3) == sxt(s, 4 * g + 3) })
{
    reveal(bytes_of);
    let x = b64d(s);
    l_b64ic(s[4 * g]); l_b64ic(s[4 * g + 1]); l_b64ic(s[4 * g + 2]); l_b64ic(s[4 * g + 3]);
    l_by_group(s, g);
    l_grp4(sxt(s, 4 * g), sxt(s, 4 * g + 1), sxt(s, 4 * g + 2), sxt(s, 4 * g + 3));
    assert(x.len() * 4 == s.len() * 3);
    assert((4 * g) / 4 == g && (4 * g + 1) / 4 == g && (4 * g + 2) / 4 == g && (4 * g + 3) / 4 == g);
    assert((4 * g) % 4 == 0 && (4 * g + 1) % 4 == 1 && (4 * g + 2) % 4 == 2 && (4 * g + 3) % 4 == 3);
    assert(x[3 * g] == by(s, 3 * g)); assert(x[3 * g + 1] == by(s, 3 * g + 1)); assert(x[3 * g + 2] == by(s, 3 * g + 2));
}
// encode is a left inverse of decode on unpadded canonical text
pub broadcast proof fn l_b64ed(s: Seq<u8>)
    requires all_b64(s), s.len() % 4 == 0
    ensures #[trigger] b64e(b64d(s)) == s, b64d(s).len() * 4 == s.len() * 3
{
    reveal(b64e);
    let x = b64d(s);
    assert(x.len() * 4 == s.len() * 3) by { reveal(bytes_of); }
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] b64e(x)[i] == s[i] by {
        let g = i / 4;
        l_b64d_group(s, g);
        assert(sx(x, i) == sxt(s, i));
        l_b64ic(s[i]);
        assert(b64c(sx(x, i)) == s[i]);
    }
    assert(b64e(x) =~= s);
}

// value of the first l sextets / first n bytes, used by the code conversions
pub open spec fn sxval(b: Seq<u8>, l: nat) -> int decreases l { if l == 0 { 0 } else { sxval(b, (l - 1) as nat) * 64 + sx(b, l - 1) } }
pub open spec fn byval(s: Seq<u8>, n: nat) -> int decreases n { if n == 0 { 0 } else { byval(s, (n - 1) as nat) * 256 + by(s, n - 1) as int } }
pub proof fn l_enc_sxval(b: Seq<u8>, l: nat)
    ensures enc_int(sxval(b, l), l) == sxs(b, l as int), 0 <= sxval(b, l) < vpow(64, l)
    decreases l
{
    reveal(enc_int); reveal(sxs);
    if l > 0 {
        l_enc_sxval(b, (l - 1) as nat); l_sx_bounds(b, l - 1);
        let p = sxval(b, (l - 1) as nat);
        assert((p * 64 + sx(b, l - 1)) / 64 == p && (p * 64 + sx(b, l - 1)) % 64 == sx(b, l - 1));
        assert(sxs(b, l as int) =~= sxs(b, l - 1).push(b64c(sx(b, l - 1))));
    } else { assert(sxs(b, 0) =~= Seq::empty()); }
}
pub proof fn l_be_byval(s: Seq<u8>, n: nat)
    ensures be_enc(byval(s, n), n) == bytes_of(s, n as int)
    decreases n
{
    reveal(bytes_of);
    if n > 0 {
        l_be_byval(s, (n - 1) as nat);
        let p = byval(s, (n - 1) as nat);
        let y = by(s, n - 1) as int;
        assert((p * 256 + y) / 256 == p && (p * 256 + y) % 256 == y);
        assert(bytes_of(s, n as int) =~= bytes_of(s, n - 1).push(by(s, n - 1)));
    } else { assert(bytes_of(s, 0) =~= Seq::empty()); }
}
pub broadcast proof fn l_be_len(n: int, l: nat)
    ensures (#[trigger] be_enc(n, l)).len() == l
    decreases l
{ if l > 0 { l_be_len(n / 256, (l - 1) as nat); } }
// low m bytes of a big endian encoding
pub proof fn l_be_low(n: int, l: nat, m: nat)
    requires m <= l
    ensures be_enc(n, l).skip(l - m) == be_enc(n, m)
    decreases m
{
    l_be_len(n, l); l_be_len(n, m);
    if m > 0 {
        l_be_low(n / 256, (l - 1) as nat, (m - 1) as nat);
        l_be_len(n / 256, (l - 1) as nat);
        assert(be_enc(n, l).skip(l - m) =~= be_enc(n / 256, (l - 1) as nat).skip(l - m).push((n % 256) as u8));
    } else { assert(be_enc(n, l).skip(l as int) =~= be_enc(n, 0)); }
}
pub broadcast proof fn l_be_int8(s: Seq<u8>)
    ensures s.len() == 4 ==> #[trigger] be_int(s) == s[0] * 16777216 + s[1] * 65536 + s[2] * 256 + s[3],
        s.len() == 8 ==> be_int(s) == s[0] * 72057594037927936 + s[1] * 281474976710656 + s[2] * 1099511627776 + s[3] * 4294967296
            + s[4] * 16777216 + s[5] * 65536 + s[6] * 256 + s[7],
{ reveal_with_fuel(be_int, 9); }
pub spec const MAXLEN: int = 0x7fff_ffff;
pub broadcast proof fn l_shr_b2_32(i: u32, t: usize)
    ensures #![trigger i >> t]
        t == 8 ==> i >> t == i / 256, t == 14 ==> i >> t == i / 16384, t == 20 ==> i >> t == i / 1048576, t == 26 ==> i >> t == i / 67108864,
{
    assert(i >> 8usize == i / 256) by (bit_vector); assert(i >> 14usize == i / 16384) by (bit_vector);
    assert(i >> 20usize == i / 1048576) by (bit_vector); assert(i >> 26usize == i / 67108864) by (bit_vector);
}
pub broadcast proof fn l_shr_b2_64(i: u64, t: usize)
    ensures #![trigger i >> t]
        t == 34 ==> i >> t == i / 0x400000000, t == 28 ==> i >> t == i / 0x10000000, t == 22 ==> i >> t == i / 0x400000, t == 16 ==> i >> t == i / 0x10000,
{
    assert(i >> 34usize == i / 0x400000000) by (bit_vector); assert(i >> 28usize == i / 0x10000000) by (bit_vector);
    assert(i >> 22usize == i / 0x400000) by (bit_vector); assert(i >> 16usize == i / 0x10000) by (bit_vector);
}

pub broadcast proof fn l_shl_b2_64(i: u64, t: usize)
    ensures #![trigger i << t]
        t == 0 ==> i << t == i, t == 2 && i <= 0xfff_ffff_ffff ==> i << t == i * 4,
        t == 4 && i <= 0xfff_ffff_ffff ==> i << t == i * 16, t == 6 && i <= 0xfff_ffff_ffff ==> i << t == i * 64,
{
    assert(i << 0usize == i) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 2usize == i * 4) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 4usize == i * 16) by (bit_vector);
    assert(i <= 0xfff_ffff_ffffu64 ==> i << 6usize == i * 64) by (bit_vector);
}
pub open spec fn shl_amt(l: int) -> int { if l % 4 == 0 { 1 } else if l % 4 == 1 { 4 } else if l % 4 == 2 { 16 } else { 64 } }
pub proof fn l_code_b2(s: Seq<u8>)
    requires s.len() <= 8
    ensures all_b64(s) ==> {
        let n = ((s.len() + 1) * 3 / 4) as nat;
        let v = dec_int(s) * shl_amt(s.len() as int);
        &&& 0 <= dec_int(s) <= 0xffff_ffff_ffff
        &&& s.len() < 8 ==> dec_int(s) <= 0x3ff_ffff_ffff
        &&& s.len() <= 4 ==> dec_int(s) <= 0xff_ffff
        &&& be_enc(v, 8).len() == 8 && be_enc(v, 8).subrange(8 - n, 8) == bytes_of(s, n as int)
        &&& n <= 4 ==> be_enc(v, 4).len() == 4 && be_enc(v, 4).subrange(4 - n, 4) == bytes_of(s, n as int)
    }
{
    if all_b64(s) {
        let n = ((s.len() + 1) * 3 / 4) as nat;
        let v = dec_int(s) * shl_amt(s.len() as int);
        l_dec_bounds(s); l_pow64(s.len()); l_be_byval(s, n); l_byval_dec(s);
        l_be_low(v, 8, n); l_be_len(v, 8);
        assert(be_enc(v, 8).subrange(8 - n, 8) =~= be_enc(v, 8).skip(8 - n));
        if n <= 4 { l_be_low(v, 4, n); l_be_len(v, 4); assert(be_enc(v, 4).subrange(4 - n, 4) =~= be_enc(v, 4).skip(4 - n)); }
    }
}
pub open spec fn sxtval(s: Seq<u8>, n: nat) -> int decreases n { if n == 0 { 0 } else { sxtval(s, (n - 1) as nat) * 64 + sxt(s, n - 1) } }
pub proof fn l_sxtval(s: Seq<u8>, n: nat)
    requires n <= s.len()
    ensures dec_int(s.take(n as int)) == sxtval(s, n)
    decreases n
{
    reveal(dec_int);
    if n > 0 { l_sxtval(s, (n - 1) as nat); assert(s.take(n as int).drop_last() =~= s.take(n - 1)); }
}
pub proof fn l_grp_val(p: int, q: int, r: int, t: int)
    requires 0 <= p < 64, 0 <= q < 64, 0 <= r < 64, 0 <= t < 64
    ensures ({ let a = p * 4 + q / 16; let b = (q % 16) * 16 + r / 4; let c = (r % 4) * 64 + t;
        a * 65536 + b * 256 + c == p * 262144 + q * 4096 + r * 64 + t
        && (r == 0 ==> a * 256 + b == p * 1024 + q * 16) && (q == 0 ==> a == p * 4) })
{}
pub open spec fn grp(s: Seq<u8>, i: int) -> int { sxt(s, i) * 262144 + sxt(s, i + 1) * 4096 + sxt(s, i + 2) * 64 + sxt(s, i + 3) }
pub proof fn l_sxt_rng(s: Seq<u8>, i: int)
    requires all_b64(s)
    ensures 0 <= sxt(s, i) < 64, i >= s.len() ==> sxt(s, i) == 0
{ if 0 <= i < s.len() { l_b64ic(s[i]); } }
pub proof fn l_by_grp(s: Seq<u8>, g: int)
    requires all_b64(s), 0 <= g <= 1
    ensures by(s, 3 * g) as int * 65536 + by(s, 3 * g + 1) as int * 256 + by(s, 3 * g + 2) as int == grp(s, 4 * g),
        sxt(s, 4 * g + 2) == 0 && sxt(s, 4 * g + 3) == 0 ==> by(s, 3 * g) as int * 256 + by(s, 3 * g + 1) as int == sxt(s, 4 * g) * 1024 + sxt(s, 4 * g + 1) * 16,
        sxt(s, 4 * g + 1) == 0 && sxt(s, 4 * g + 2) == 0 && sxt(s, 4 * g + 3) == 0 ==> by(s, 3 * g) as int == sxt(s, 4 * g) * 4,
{
    let i = 4 * g;
    l_sxt_rng(s, i); l_sxt_rng(s, i + 1); l_sxt_rng(s, i + 2); l_sxt_rng(s, i + 3);
    l_by_group(s, g);
    l_grp_val(sxt(s, i), sxt(s, i + 1), sxt(s, i + 2), sxt(s, i + 3));
}
pub proof fn l_byval6(s: Seq<u8>)
    ensures byval(s, 0) == 0, byval(s, 1) == by(s, 0) as int, byval(s, 2) == by(s, 0) as int * 256 + by(s, 1) as int,
        byval(s, 3) == by(s, 0) as int * 65536 + by(s, 1) as int * 256 + by(s, 2) as int,
        byval(s, 4) == byval(s, 3) * 256 + by(s, 3) as int,
        byval(s, 5) == byval(s, 3) * 65536 + by(s, 3) as int * 256 + by(s, 4) as int,
        byval(s, 6) == byval(s, 3) * 16777216 + by(s, 3) as int * 65536 + by(s, 4) as int * 256 + by(s, 5) as int,
{ reveal_with_fuel(byval, 7); }
pub proof fn l_sxtval8(s: Seq<u8>)
    ensures sxtval(s, 0) == 0, sxtval(s, 1) == sxt(s, 0), sxtval(s, 2) == sxt(s, 0) * 64 + sxt(s, 1),
        sxtval(s, 3) == sxt(s, 0) * 4096 + sxt(s, 1) * 64 + sxt(s, 2), sxtval(s, 4) == grp(s, 0),
        sxtval(s, 5) == grp(s, 0) * 64 + sxt(s, 4), sxtval(s, 6) == grp(s, 0) * 4096 + sxt(s, 4) * 64 + sxt(s, 5),
        sxtval(s, 7) == grp(s, 0) * 262144 + sxt(s, 4) * 4096 + sxt(s, 5) * 64 + sxt(s, 6),
        sxtval(s, 8) == grp(s, 0) * 16777216 + grp(s, 4),
{ reveal_with_fuel(sxtval, 9); }
pub proof fn l_byval_dec(s: Seq<u8>)
    requires s.len() <= 8, all_b64(s)
    ensures byval(s, ((s.len() + 1) * 3 / 4) as nat) == dec_int(s) * shl_amt(s.len() as int)
{
    hide(by); hide(sxt); hide(byval); hide(sxtval);
    l_sxtval(s, s.len()); assert(s.take(s.len() as int) =~= s);
    l_by_grp(s, 0); l_by_grp(s, 1); l_byval6(s); l_sxtval8(s);
    l_sxt_rng(s, 1); l_sxt_rng(s, 2); l_sxt_rng(s, 3); l_sxt_rng(s, 5); l_sxt_rng(s, 6); l_sxt_rng(s, 7);
    let n = s.len();
    if n == 0 {} else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 {} else if n == 5 {} else if n == 6 {} else if n == 7 {} else {}
}
// k-th sextet of a 24 bit group
#[verifier::opaque]
pub open spec fn sn(n: int, k: int) -> int { if k == 0 { n / 262144 } else if k == 1 { (n / 4096) % 64 } else if k == 2 { (n / 64) % 64 } else { n % 64 } }
pub proof fn l_nab_bits()
    ensures
        forall|x: u8| #![trigger (x as u32) << 16i32] (x as u32) << 16i32 == x * 65536,
        forall|x: u8| #![trigger (x as u32) << 8i32] (x as u32) << 8i32 == x * 256,
        forall|n: u32| #![trigger n & 0xfc0000] n < 0x1000000 ==> (n & 0xfc0000) >> 18i32 == sn(n as int, 0),
        forall|n: u32| #![trigger n & 0x03f000] (n & 0x03f000) >> 12i32 == sn(n as int, 1),
        forall|n: u32| #![trigger n & 0x000fc0] (n & 0x000fc0) >> 6i32 == sn(n as int, 2),
        forall|n: u32| #![trigger n & 0x3f] n & 0x3f == sn(n as int, 3),
        forall|n: u32| #![trigger n >> 18i32] n < 0x1000000 ==> n >> 18i32 == sn(n as int, 0) && (n >> 18i32) & 0x3f == sn(n as int, 0),
        forall|n: u32| #![trigger n >> 12i32] (n >> 12i32) & 0x3f == sn(n as int, 1),
        forall|n: u32| #![trigger n >> 6i32] (n >> 6i32) & 0x3f == sn(n as int, 2),
{
    reveal(sn);
    assert(forall|x: u8| #![trigger (x as u32) << 16i32] (x as u32) << 16i32 == x * 65536) by (bit_vector);
    assert(forall|x: u8| #![trigger (x as u32) << 8i32] (x as u32) << 8i32 == x * 256) by (bit_vector);
    assert(forall|n: u32| #![trigger n & 0xfc0000] n < 0x1000000 ==> (n & 0xfc0000) >> 18i32 == n / 262144) by (bit_vector);
    assert(forall|n: u32| #![trigger n & 0x03f000] (n & 0x03f000) >> 12i32 == (n / 4096) % 64) by (bit_vector);
    assert(forall|n: u32| #![trigger n & 0x000fc0] (n & 0x000fc0) >> 6i32 == (n / 64) % 64) by (bit_vector);
    assert(forall|n: u32| #![trigger n & 0x3f] n & 0x3f == n % 64) by (bit_vector);
    assert(forall|n: u32| #![trigger n >> 18i32] n < 0x1000000 ==> n >> 18i32 == n / 262144 && (n >> 18i32) & 0x3f == n / 262144) by (bit_vector);
    assert(forall|n: u32| #![trigger n >> 12i32] (n >> 12i32) & 0x3f == (n / 4096) % 64) by (bit_vector);
    assert(forall|n: u32| #![trigger n >> 6i32] (n >> 6i32) & 0x3f == (n / 64) % 64) by (bit_vector);
}
pub proof fn l_pack(x: int, y: int, z: int)
    requires 0 <= x < 256, 0 <= y < 256, 0 <= z < 256
    ensures ({ let n = x * 65536 + y * 256 + z; sn(n, 0) == x / 4 && sn(n, 1) == (x % 4) * 16 + y / 16
        && sn(n, 2) == (y % 16) * 4 + z / 64 && sn(n, 3) == z % 64 && 0 <= n < 0x1000000
        && forall|k: int| 0 <= #[trigger] sn(n, k) < 64 || k < 0 || k > 3 })
{
    reveal(sn);
    let n = x * 65536 + y * 256 + z;
    assert(n / 262144 == x / 4);
    assert(n / 4096 == x * 16 + y / 16);
    assert((n / 4096) % 64 == (x % 4) * 16 + y / 16);
    assert(n / 64 == x * 1024 + y * 4 + z / 64);
    assert((n / 64) % 64 == (y % 16) * 4 + z / 64);
}
pub proof fn l_nab_step(b: Seq<u8>, i: int, j: int)
    requires i % 3 == 0, i >= 0, j * 3 == i * 4
    ensures ({ let n = byt(b, i) * 65536 + byt(b, i + 1) * 256 + byt(b, i + 2);
        sx(b, j) == sn(n, 0) && sx(b, j + 1) == sn(n, 1) && sx(b, j + 2) == sn(n, 2) && sx(b, j + 3) == sn(n, 3) && 0 <= n < 0x1000000
        && 0 <= sn(n, 0) < 64 && 0 <= sn(n, 1) < 64 && 0 <= sn(n, 2) < 64 && 0 <= sn(n, 3) < 64 })
{
    let g = i / 3;
    assert(j / 4 == g && (j + 1) / 4 == g && (j + 2) / 4 == g && (j + 3) / 4 == g);
    assert(j % 4 == 0 && (j + 1) % 4 == 1 && (j + 2) % 4 == 2 && (j + 3) % 4 == 3);
    l_pack(byt(b, i), byt(b, i + 1), byt(b, i + 2));
}
pub proof fn l_sxval_n(s: Seq<u8>)
    ensures
        s.len() == 1 ==> sxval(s, 1) == s[0] as int / 4,
        s.len() == 2 ==> sxval(s, 2) == s[0] * 16 + s[1] as int / 16,
        s.len() == 3 ==> sxval(s, 3) == s[0] * 1024 + s[1] * 4 + s[2] as int / 64 && sxval(s, 4) == s[0] * 65536 + s[1] * 256 + s[2],
        s.len() == 4 ==> sxval(s, 5) == (s[0] * 65536 + s[1] * 256 + s[2]) * 64 + s[3] as int / 4,
        s.len() == 5 ==> sxval(s, 6) == (s[0] * 65536 + s[1] * 256 + s[2]) * 4096 + s[3] * 16 + s[4] as int / 16,
        s.len() == 6 ==> sxval(s, 7) == (s[0] * 65536 + s[1] * 256 + s[2]) * 262144 + s[3] * 1024 + s[4] * 4 + s[5] as int / 64
            && sxval(s, 8) == (s[0] * 65536 + s[1] * 256 + s[2]) * 16777216 + s[3] * 65536 + s[4] * 256 + s[5],
{
    reveal_with_fuel(sxval, 9);
    let (a, b, c) = (byt(s, 0), byt(s, 1), byt(s, 2));
    let (d, e, f) = (byt(s, 3), byt(s, 4), byt(s, 5));
    assert(sx(s, 0) == a / 4 && sx(s, 1) == (a % 4) * 16 + b / 16 && sx(s, 2) == (b % 16) * 4 + c / 64 && sx(s, 3) == c % 64);
    assert(sx(s, 4) == d / 4 && sx(s, 5) == (d % 4) * 16 + e / 16 && sx(s, 6) == (e % 16) * 4 + f / 64 && sx(s, 7) == f % 64);
    assert(sxval(s, 1) == a / 4);
    assert(sxval(s, 2) == a * 16 + b / 16);
    assert(sxval(s, 3) == a * 1024 + b * 4 + c / 64);
    assert(sxval(s, 4) == a * 65536 + b * 256 + c);
    let v = sxval(s, 4);
    assert(sxval(s, 5) == v * 64 + d / 4);
    assert(sxval(s, 6) == v * 4096 + d * 16 + e / 16);
    assert(sxval(s, 7) == v * 262144 + d * 1024 + e * 4 + f / 64);
    assert(sxval(s, 8) == v * 16777216 + d * 65536 + e * 256 + f);
}
pub proof fn l_sxval_take(b: Seq<u8>, n: int, l: nat)
    requires 0 <= n <= b.len(), l == 0 || 3 * ((l - 1) / 4) + (if (l - 1) % 4 == 3 { 2 } else { (l - 1) % 4 }) < n
    ensures sxval(b.subrange(0, n), l) == sxval(b, l)
    decreases l
{
    if l > 0 { l_sxval_take(b, n, (l - 1) as nat); assert(sx(b.subrange(0, n), l - 1) == sx(b, l - 1)); }
}
pub broadcast proof fn l_be_splice(o: Seq<u8>, s: Seq<u8>)
    requires o.len() == 4 || o.len() == 8, s.len() <= o.len(), forall|i: int| 0 <= i < o.len() ==> o[i] == 0
    ensures #![trigger be_int(splice(o, 0, s))]
        o.len() == 4 && s.len() == 1 ==> be_int(splice(o, 0, s)) / 67108864 == sxval(s, 1),
        o.len() == 4 && s.len() == 2 ==> be_int(splice(o, 0, s)) / 1048576 == sxval(s, 2),
        o.len() == 4 && s.len() == 3 ==> be_int(splice(o, 0, s)) / 16384 == sxval(s, 3) && be_int(splice(o, 0, s)) / 256 == sxval(s, 4),
        o.len() == 8 && s.len() == 4 ==> be_int(splice(o, 0, s)) / 0x400000000 == sxval(s, 5),
        o.len() == 8 && s.len() == 5 ==> be_int(splice(o, 0, s)) / 0x10000000 == sxval(s, 6),
        o.len() == 8 && s.len() == 6 ==> be_int(splice(o, 0, s)) / 0x400000 == sxval(s, 7) && be_int(splice(o, 0, s)) / 0x10000 == sxval(s, 8),
{
    let z = splice(o, 0, s);
    l_be_int8(z); l_sxval_n(s);
    if o.len() == 4 && s.len() == 1 { assert(z[1] == 0 && z[2] == 0 && z[3] == 0); }
    else if o.len() == 4 && s.len() == 2 { assert(z[2] == 0 && z[3] == 0); }
    else if o.len() == 4 && s.len() == 3 { assert(z[3] == 0); assert(be_int(z) == (s[0] * 65536 + s[1] * 256 + s[2]) * 256); }
    else if o.len() == 8 && s.len() == 4 { assert(z[4] == 0 && z[5] == 0 && z[6] == 0 && z[7] == 0); }
    else if o.len() == 8 && s.len() == 5 { assert(z[5] == 0 && z[6] == 0 && z[7] == 0); }
    else if o.len() == 8 && s.len() == 6 { assert(z[6] == 0 && z[7] == 0); }
}
