// ------------------------------------------------------------------------------------------
// Version strings and serialisation (common.rs)
// ------------------------------------------------------------------------------------------
pub open spec fn t_json() -> Seq<u8> { seq![74u8, 83u8, 79u8, 78u8] }
pub open spec fn t_keri() -> Seq<u8> { seq![75u8, 69u8, 82u8, 73u8] }
pub open spec fn t_acdc() -> Seq<u8> { seq![65u8, 67u8, 68u8, 67u8] }
pub open spec fn lab_v() -> Seq<u8> { seq![118u8] }
pub open spec fn ostr(o: Option<&Str>) -> Option<Seq<u8>> { if o.is_some() { Some(o->Some_0@) } else { None } }

// ---- the version string pattern ------------------------------------------------------------
// "(?P<ident>[A-Z]{4})(?P<major>[0-9a-f])(?P<minor>[0-9a-f])(?P<kind>[A-Z]{4})(?P<size>[0-9a-f]{6})_"
pub open spec fn is_up(c: u8) -> bool { 65 <= c <= 90 }
pub open spec fn is_lhex(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 }
pub open spec fn all_up(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_up(#[trigger] s[i]) }
pub open spec fn all_lhex(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_lhex(#[trigger] s[i]) }
pub open spec fn vre(s: Seq<u8>) -> bool {
    &&& s.len() == 17 && all_up(s.subrange(0, 4)) && all_lhex(s.subrange(4, 6)) && all_up(s.subrange(6, 10)) && all_lhex(s.subrange(10, 16)) && s[16] == 95
}
pub open spec fn vre_at(s: Seq<u8>, i: int) -> bool { 0 <= i && i + 17 <= s.len() && vre(s.subrange(i, i + 17)) }
pub open spec fn re_ver() -> Seq<u8> { seq![40u8, 63u8, 80u8, 60u8, 105u8, 100u8, 101u8, 110u8, 116u8, 62u8, 91u8, 65u8, 45u8, 90u8, 93u8, 123u8, 52u8, 125u8, 41u8, 40u8, 63u8, 80u8, 60u8, 109u8, 97u8, 106u8, 111u8, 114u8, 62u8, 91u8, 48u8, 45u8, 57u8, 97u8, 45u8, 102u8, 93u8, 41u8, 40u8, 63u8, 80u8, 60u8, 109u8, 105u8, 110u8, 111u8, 114u8, 62u8, 91u8, 48u8, 45u8, 57u8, 97u8, 45u8, 102u8, 93u8, 41u8, 40u8, 63u8, 80u8, 60u8, 107u8, 105u8, 110u8, 100u8, 62u8, 91u8, 65u8, 45u8, 90u8, 93u8, 123u8, 52u8, 125u8, 41u8, 40u8, 63u8, 80u8, 60u8, 115u8, 105u8, 122u8, 101u8, 62u8, 91u8, 48u8, 45u8, 57u8, 97u8, 45u8, 102u8, 93u8, 123u8, 54u8, 125u8, 41u8, 95u8] }

// leftmost match at or after i
pub open spec fn re_from(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i + 17 > s.len() { -1 } else if vre_at(s, i) { i } else { re_from(s, i + 1) } }
pub open spec fn re_first(s: Seq<u8>) -> int { re_from(s, 0) }
// every match, left to right, replaced by its bytes a..b
pub open spec fn re_repl(s: Seq<u8>, a: int, b: int) -> Seq<u8> decreases s.len() {
    let i = re_first(s);
    if i < 0 || i + 17 > s.len() { s } else { s.take(i) + s.subrange(i + a, i + b) + re_repl(s.skip(i + 17), a, b) }
}
// the bytes of a match that a named group covers
pub open spec fn re_grp(t: Seq<u8>) -> Option<(int, int)> {
    if t == seq![36u8, 105u8, 100u8, 101u8, 110u8, 116u8] { Some((0int, 4int)) } else if t == seq![36u8, 109u8, 97u8, 106u8, 111u8, 114u8] { Some((4int, 5int)) } else if t == seq![36u8, 109u8, 105u8, 110u8, 111u8, 114u8] { Some((5int, 6int)) }
    else if t == seq![36u8, 107u8, 105u8, 110u8, 100u8] { Some((6int, 10int)) } else if t == seq![36u8, 115u8, 105u8, 122u8, 101u8] { Some((10int, 16int)) } else { None }
}
impl Regex {
    #[verifier::external_body]
    pub fn replace_all(&self, s: &Str, t: &Str) -> (r: Str) ensures self.pat() == re_ver() && re_grp(t@).is_some() ==> r@ == re_repl(s@, re_grp(t@)->Some_0.0, re_grp(t@)->Some_0.1) { unimplemented!() }
    // every match has 17 bytes: the end of the shortest one is 17 past the leftmost start
    #[verifier::external_body]
    pub fn shortest_match(&self, s: &Str) -> (r: Option<usize>) ensures self.pat() == re_ver() ==> r.is_some() == (re_first(s@) >= 0) && (r.is_some() ==> r->Some_0 as int == re_first(s@) + 17) { unimplemented!() }
}
pub broadcast axiom fn ax_rever(p: Seq<u8>, s: Seq<u8>) requires p == re_ver() ensures #[trigger] re_match(p, s) == (re_first(s) >= 0);
pub proof fn l_re_from(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures re_from(s, i) == -1 || (i <= re_from(s, i) && re_from(s, i) + 17 <= s.len() && vre_at(s, re_from(s, i))),
        re_from(s, i) == -1 ==> forall|j: int| i <= j && j + 17 <= s.len() ==> !#[trigger] vre_at(s, j),
        re_from(s, i) >= 0 ==> forall|j: int| i <= j < re_from(s, i) ==> !#[trigger] vre_at(s, j)
    decreases s.len() - i
{ if i + 17 <= s.len() && !vre_at(s, i) { l_re_from(s, i + 1); } }
pub proof fn l_re_first(s: Seq<u8>)
    ensures re_first(s) == -1 || (0 <= re_first(s) && re_first(s) + 17 <= s.len() && vre(s.subrange(re_first(s), re_first(s) + 17))),
        vre(s) ==> re_first(s) == 0,
{ l_re_from(s, 0); if vre(s) { assert(s.subrange(0, 17) =~= s); } }
pub proof fn l_repl_nonempty(s: Seq<u8>) requires s.len() > 0 ensures re_repl(s, 0, 4).len() > 0 { l_re_first(s); }
// a version string, whole: the groups read off in place
pub proof fn l_repl_whole(s: Seq<u8>, a: int, b: int) requires vre(s), 0 <= a <= b <= 17 ensures re_repl(s, a, b) == s.subrange(a, b)
{ l_re_first(s); assert(s.skip(17).len() == 0); assert(re_repl(s.skip(17), a, b) =~= Seq::empty()); assert(re_repl(s, a, b) =~= s.subrange(a, b)); }
pub proof fn l_vs_repl(s: Seq<u8>)
    ensures re_first(s) >= 0 && re_repl(s, 0, 4).len() == 4 ==> vre(s),
        vre(s) ==> re_first(s) == 0 && re_repl(s, 0, 4) == s.subrange(0, 4) && re_repl(s, 4, 5) == s.subrange(4, 5) && re_repl(s, 5, 6) == s.subrange(5, 6) && re_repl(s, 6, 10) == s.subrange(6, 10) && re_repl(s, 10, 16) == s.subrange(10, 16)
{
    l_re_first(s);
    if vre(s) { l_repl_whole(s, 0, 4); l_repl_whole(s, 4, 5); l_repl_whole(s, 5, 6); l_repl_whole(s, 6, 10); l_repl_whole(s, 10, 16); }
    let i = re_first(s);
    if i >= 0 && re_repl(s, 0, 4).len() == 4 {
        let t = s.skip(i + 17);
        assert(re_repl(s, 0, 4).len() == i + 4 + re_repl(t, 0, 4).len());
        if t.len() > 0 { l_repl_nonempty(t); }
        assert(s.subrange(0, 17) =~= s);
    }
}
// ---- version strings -----------------------------------------------------------------------
pub type Vs = (Seq<u8>, int, int, Seq<u8>, int);
pub open spec fn t_id(s: Seq<u8>) -> bool { s == t_acdc() || s == t_keri() }
pub open spec fn vs_sniff(s: Seq<u8>) -> Option<Vs> {
    if vre(s) && s.subrange(6, 10) == t_json() { Some((s.subrange(0, 4), hexval(s[4] as int), hexval(s[5] as int), t_json(), hex_int(s.subrange(10, 16)))) } else { None }
}
pub open spec fn vs_of(s: Seq<u8>) -> Option<Vs> { if vre(s) && t_id(s.subrange(0, 4)) { vs_sniff(s) } else { None } }
pub open spec fn vs_ok(id: Seq<u8>, ma: int, mi: int, k: Seq<u8>, n: int) -> bool { t_id(id) && k == t_json() && 0 <= ma <= 15 && 0 <= mi <= 15 && 0 <= n <= 0xff_ffff }
pub open spec fn vs_text(id: Seq<u8>, ma: int, mi: int, k: Seq<u8>, n: int) -> Seq<u8> { id + seq![hexdig(ma)] + seq![hexdig(mi)] + k + zpad(hex_digits(n as nat), 6) + seq![95u8] }
pub open spec fn vp_is(x: Vs, ident: Seq<u8>, v: crate::cesr::core::common::Version, kind: Seq<u8>, size: int) -> bool { x.0 == ident && x.1 == v.major as int && x.2 == v.minor as int && x.3 == kind && x.4 == size }
pub broadcast proof fn l_vs_hexpad(n: nat) requires n <= 15 ensures #[trigger] zpad(hex_digits(n), 1) == seq![hexdig(n as int)] { assert(zpad(hex_digits(n), 1) =~= seq![hexdig(n as int)]); }
pub proof fn l_hex_len(n: nat, k: nat) requires n < vpow(16, k), k >= 1 ensures hex_digits(n).len() <= k decreases k
{ reveal_with_fuel(vpow, 3); if n >= 16 { assert(k >= 2) by { if k == 1 { assert(vpow(16, 1) == 16); } } assert(n / 16 < vpow(16, (k - 1) as nat)) by (nonlinear_arith) requires n < 16 * vpow(16, (k - 1) as nat); l_hex_len(n / 16, (k - 1) as nat); } }
pub proof fn l_hex_lower(n: nat) ensures all_lhex(hex_digits(n)) decreases n { if n >= 16 { l_hex_lower(n / 16); } assert forall|i: int| 0 <= i < hex_digits(n).len() implies is_lhex(#[trigger] hex_digits(n)[i]) by { if n >= 16 { let p = hex_digits(n / 16); if i < p.len() { assert(hex_digits(n)[i] == p[i]); } } } }
pub proof fn l_hex_zpad(s: Seq<u8>, w: int) ensures s.len() <= w ==> zpad(s, w).len() == w && hex_int(zpad(s, w)) == hex_int(s) decreases w - s.len()
{
    if s.len() < w {
        let t = seq![48u8] + s;
        l_hex_zpad(t, w);
        assert(zpad(t, w) =~= zpad(s, w));
        l_hex_lead0(s);
    }
}
pub proof fn l_hex_lead0(s: Seq<u8>) ensures hex_int(seq![48u8] + s) == hex_int(s) decreases s.len()
{ let t = seq![48u8] + s; if s.len() > 0 { assert(t.drop_last() =~= seq![48u8] + s.drop_last()); assert(t.last() == s.last()); l_hex_lead0(s.drop_last()); } else { assert(t.drop_last() =~= Seq::<u8>::empty()); assert(hex_int(Seq::<u8>::empty()) == 0); } }
// digits of a fixed width text come back
pub proof fn l_hex_back(s: Seq<u8>) requires all_lhex(s) ensures 0 <= hex_int(s) < vpow(16, s.len()), zpad(hex_digits(hex_int(s) as nat), s.len() as int) == (if s.len() == 0 { seq![48u8] } else { s }) decreases s.len()
{
    reveal_with_fuel(vpow, 2);
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies is_lhex(#[trigger] p[i]) by { assert(p[i] == s[i]); }
        assert(is_lhex(s[s.len() - 1]));
        l_hex_back(p);
        let d = hexval(s.last() as int); let n = hex_int(p); let m = hex_int(s);
        assert(m == n * 16 + d && 0 <= d < 16 && hexdig(d) == s.last());
        assert(m < vpow(16, s.len())) by (nonlinear_arith) requires m == n * 16 + d, 0 <= d < 16, n < vpow(16, p.len()), vpow(16, s.len()) == 16 * vpow(16, p.len());
        l_hex_len(m as nat, s.len());
        if n == 0 {
            assert(hex_digits(m as nat) =~= seq![s.last()]);
            let z = zpad(hex_digits(m as nat), s.len() as int);
            let zp = zpad(seq![48u8], p.len() as int);
            assert(hex_digits(0) == seq![48u8]);
            assert forall|i: int| 0 <= i < s.len() implies z[i] == s[i] by { if i < p.len() { assert(zp == p); assert(zp[i] == 48); assert(p[i] == s[i]); } }
            assert(z =~= s);
        } else {
            assert(m / 16 == n && m % 16 == d) by (nonlinear_arith) requires m == n * 16 + d, 0 <= d < 16;
            let h = hex_digits(n as nat);
            assert(hex_digits(m as nat) == h.push(hexdig(d)));
            if p.len() == 0 { assert(n == 0); }
            l_hex_len(n as nat, p.len());
            assert(zpad(h, p.len() as int) == p);
            assert(zpad(hex_digits(m as nat), s.len() as int) =~= s) by {
                let z = zpad(hex_digits(m as nat), s.len() as int);
                assert(z.len() == s.len());
                assert forall|i: int| 0 <= i < s.len() implies z[i] == s[i] by { if i < p.len() { assert(zpad(h, p.len() as int)[i] == p[i]); } }
            }
        }
    }
}
pub proof fn l_vs_hex(s: Seq<u8>)
    ensures vre(s) ==> p_hex(s.subrange(4, 5), 255) == Some(hexval(s[4] as int)) && p_hex(s.subrange(5, 6), 255) == Some(hexval(s[5] as int)) && p_hex(s.subrange(10, 16), 0xffff_ffff) == Some(hex_int(s.subrange(10, 16)))
            && 0 <= hexval(s[4] as int) <= 15 && 0 <= hexval(s[5] as int) <= 15 && 0 <= hex_int(s.subrange(10, 16)) <= 0xff_ffff
{
    if vre(s) {
        let g = s.subrange(4, 6);
        assert(is_lhex(g[0]) && is_lhex(g[1]));
        let a = s.subrange(4, 5); let b = s.subrange(5, 6); let c = s.subrange(10, 16);
        assert(a.drop_last() =~= Seq::<u8>::empty() && b.drop_last() =~= Seq::<u8>::empty());
        assert(hex_int(a) == hexval(s[4] as int) && hex_int(b) == hexval(s[5] as int)) by { reveal_with_fuel(hex_int, 2); }
        assert(is_lhex(c[0]));
        assert forall|i: int| 0 <= i < c.len() implies hexval(#[trigger] c[i] as int) >= 0 by { assert(is_lhex(c[i])); }
        l_hex_back(c);
        assert(vpow(16, 6) == 0x100_0000) by { reveal_with_fuel(vpow, 7); }
    }
}
pub proof fn l_vs_alpha_(id: Seq<u8>) ensures t_id(id) || id == t_json() ==> all_up(id) && id.len() == 4 {}
// C18: a version string has 17 characters and reads back as what it was made from
pub proof fn thm_version(id: Seq<u8>, ma: int, mi: int, k: Seq<u8>, n: int)
    requires vs_ok(id, ma, mi, k, n)
    ensures vs_text(id, ma, mi, k, n).len() == 17, vs_of(vs_text(id, ma, mi, k, n)) == Some((id, ma, mi, k, n))
{
    let s = vs_text(id, ma, mi, k, n);
    assert(vpow(16, 6) == 0x100_0000) by { reveal_with_fuel(vpow, 7); }
    l_hex_len(n as nat, 6); l_hex_lower(n as nat); l_hex_zpad(hex_digits(n as nat), 6); l_hex_rt(n as nat);
    l_vs_alpha_(id); l_vs_alpha_(k);
    let z = zpad(hex_digits(n as nat), 6);
    assert(s.subrange(0, 4) =~= id); assert(s.subrange(6, 10) =~= k); assert(s.subrange(10, 16) =~= z);
    let g = s.subrange(4, 6); assert(g =~= seq![hexdig(ma), hexdig(mi)]);
    assert forall|i: int| 0 <= i < 6 implies is_lhex(#[trigger] z[i]) by { let h = hex_digits(n as nat); if i >= 6 - h.len() { assert(z[i] == h[i - (6 - h.len())]); } }
    l_hexdig(ma); l_hexdig(mi);
    assert(vre(s));
}
// ... and only the canonical text of a version string is accepted
pub proof fn thm_version_back(s: Seq<u8>)
    requires vs_of(s).is_some()
    ensures ({ let x = vs_of(s)->Some_0; vs_ok(x.0, x.1, x.2, x.3, x.4) && vs_text(x.0, x.1, x.2, x.3, x.4) == s })
{
    l_vs_hex(s);
    let x = vs_of(s)->Some_0; let c = s.subrange(10, 16);
    l_hex_back(c);
    let g = s.subrange(4, 6);
    assert(is_lhex(g[0]) && is_lhex(g[1]));
    assert(hexdig(x.1) == s[4] && hexdig(x.2) == s[5]);
    assert(vs_text(x.0, x.1, x.2, x.3, x.4) =~= s) by {
        let t = vs_text(x.0, x.1, x.2, x.3, x.4);
        assert(t.len() == 17);
        assert forall|i: int| 0 <= i < 17 implies t[i] == s[i] by {
            if i < 4 { assert(x.0[i] == s[i]); } else if 6 <= i < 10 { assert(s.subrange(6, 10)[i - 6] == s[i]); } else if 10 <= i < 16 { assert(c[i - 10] == s[i]); }
        }
    }
}
// ---- sizeify ---------------------------------------------------------------------------------
pub open spec fn sz_of(d: DV, kind: Option<Seq<u8>>) -> Option<(Seq<u8>, DV, Seq<u8>)> {
    if !(d is Obj && d_has(d, lab_v()) && d_get(d, lab_v()) is Str) { None } else {
        match vs_of(d_get(d, lab_v())->Str_0) { None => None, Some(x) => {
            let raw = jsn(d); let i = re_first(raw);
            let vs = vs_text(x.0, 1, 0, t_json(), raw.len() as int);
            let d2 = d_set(d, lab_v(), DV::Str(vs));
            if x.1 != 1 || x.2 != 0 || (kind.is_some() && kind->Some_0 != t_json()) || i < 0 || i > 12 || raw.len() > 0xff_ffff || raw.take(i) + vs + raw.skip(i + 17) != jsn(d2) { None }
            else { Some((jsn(d2), d2, x.0)) }
        } }
    }
}
// what sizeify returns: content whose serialisation is the raw bytes, with their length in the version string
pub proof fn thm_sizeify(d: DV, kind: Option<Seq<u8>>)
    requires sz_of(d, kind).is_some()
    ensures ({ let (raw, d2, id) = sz_of(d, kind)->Some_0;
        raw == jsn(d2) && d_has(d2, lab_v()) && d_get(d2, lab_v()) == DV::Str(vs_text(id, 1, 0, t_json(), raw.len() as int))
        && vs_of(d_get(d2, lab_v())->Str_0) == Some((id, 1int, 0int, t_json(), raw.len() as int))
        && raw.len() == jsn(d).len()
        && d2->Obj_0.len() == d->Obj_0.len() && (forall|k: Seq<u8>| k != lab_v() ==> d_has(d2, k) == d_has(d, k) && (d_has(d, k) ==> d_get(d2, k) == d_get(d, k))) })
{
    let (raw, d2, id) = sz_of(d, kind)->Some_0;
    l_re_first(jsn(d));
    thm_version(id, 1, 0, t_json(), jsn(d).len() as int);
    assert(raw.len() == jsn(d).len());
    let nv = DV::Str(vs_text(id, 1, 0, t_json(), jsn(d).len() as int));
    assert(d2 == DV::Obj(o_set(d->Obj_0, lab_v(), nv)));
    assert forall|k: Seq<u8>| k != lab_v() implies d_has(d2, k) == d_has(d, k) && (d_has(d, k) ==> d_get(d2, k) == d_get(d, k)) by { l_o_set(d->Obj_0, lab_v(), nv, k); }
    l_o_set(d->Obj_0, lab_v(), DV::Str(vs_text(id, 1, 0, t_json(), jsn(d).len() as int)), lab_v());
}
// ---- loads, sniff ----------------------------------------------------------------------------
pub open spec fn lo_of(raw: Seq<u8>, size: Option<u32>, kind: Option<Seq<u8>>) -> Option<DV> {
    if (kind.is_some() && kind->Some_0 != t_json()) || (size.is_some() && raw.len() < size->Some_0) { None }
    else { let t = if size.is_some() { raw.take(size->Some_0 as int) } else { raw }; if valid_utf8(t) { jparse(t) } else { None } }
}
pub open spec fn sn_head(raw: Seq<u8>) -> Seq<u8> { Seq::new(29, |i: int| if raw[i] < 128 { raw[i] } else { 63u8 }) }
pub open spec fn sn_of(raw: Seq<u8>) -> Option<Vs> {
    if raw.len() < 29 { None } else { let h = sn_head(raw); let i = re_first(h); if i < 0 { None } else { vs_sniff(h.subrange(i, i + 17)) } }
}
pub open spec fn jplain(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> b64i(#[trigger] s[i] as int) >= 0 }
// text without characters to escape is written as it is, in quotes
pub broadcast axiom fn ax_jstr_plain(s: Seq<u8>) requires jplain(s) ensures #[trigger] jstr(s) == seq![34u8] + s + seq![34u8];
pub proof fn l_vre_plain(s: Seq<u8>) requires vre(s) ensures jplain(s) {
    assert forall|i: int| 0 <= i < s.len() implies b64i(#[trigger] s[i] as int) >= 0 by {
        if i < 4 { assert(is_up(s.subrange(0, 4)[i])); } else if i < 6 { assert(is_lhex(s.subrange(4, 6)[i - 4])); } else if i < 10 { assert(is_up(s.subrange(6, 10)[i - 6])); } else if i < 16 { assert(is_lhex(s.subrange(10, 16)[i - 10])); }
    }
}
pub open spec fn jtail(a: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases a.len() { if a.len() <= 1 { Seq::empty() } else { jtail(a.drop_last(), sep) + sep + a.last() } }
pub proof fn l_joined_head(a: Seq<Seq<u8>>, sep: Seq<u8>) requires a.len() > 0 ensures joined(a, sep) == a[0] + jtail(a, sep) decreases a.len()
{ if a.len() > 1 { l_joined_head(a.drop_last(), sep); assert(joined(a, sep) =~= a[0] + jtail(a, sep)); } else { assert(joined(a, sep) =~= a[0] + jtail(a, sep)); } }
pub proof fn l_jtail(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, sep: Seq<u8>) requires a.len() == b.len(), forall|i: int| 1 <= i < a.len() ==> a[i] == b[i] ensures jtail(a, sep) == jtail(b, sep) decreases a.len()
{ if a.len() > 1 { l_jtail(a.drop_last(), b.drop_last(), sep); } }
// sizeify accepts every structure whose first field is a version string of the current version
#[verifier::spinoff_prover]
pub proof fn thm_sizeify_first(d: DV, kind: Option<Seq<u8>>)
    requires d is Obj, d->Obj_0.len() > 0, d->Obj_0[0].0 == lab_v(), d->Obj_0[0].1 is Str,
        vs_of(d->Obj_0[0].1->Str_0).is_some(), vs_of(d->Obj_0[0].1->Str_0)->Some_0.1 == 1, vs_of(d->Obj_0[0].1->Str_0)->Some_0.2 == 0,
        kind.is_some() ==> kind->Some_0 == t_json(), jsn(d).len() <= 0xff_ffff
    ensures sz_of(d, kind).is_some()
{
    broadcast use ax_jstr_plain;
    let o = d->Obj_0; let s = o[0].1->Str_0; let id = vs_of(s)->Some_0.0;
    l_o_find(o, lab_v());
    assert(o_find(o, lab_v()) == 0) by { assert(o[0].0 == lab_v()); }
    let raw = jsn(d); let n = raw.len() as int;
    let vs = vs_text(id, 1, 0, t_json(), n);
    thm_version(id, 1, 0, t_json(), n);
    l_vre_plain(s); l_vre_plain(vs);
    let o2 = o_set(o, lab_v(), DV::Str(vs));
    l_jsn_obj(o); l_jsn_obj(o2);
    let a = jsno(o); let b = jsno(o2);
    assert(b.len() == a.len() && forall|i: int| 1 <= i < a.len() ==> b[i] == a[i]);
    let q = seq![34u8];
    let h = q + lab_v() + q + seq![58u8] + q;
    assert(a[0] =~= h + s + q); assert(b[0] =~= h + vs + q);
    let t = jtail(a, seq![44u8]);
    l_joined_head(a, seq![44u8]); l_joined_head(b, seq![44u8]); l_jtail(a, b, seq![44u8]);
    let c = seq![125u8];
    let t1 = q + t + c;
    assert(raw =~= seq![123u8] + h + s + t1);
    assert(jsn(DV::Obj(o2)) =~= seq![123u8] + h + vs + t1);
    let g = seq![123u8] + h;
    assert(g.len() == 6);
    assert(raw.subrange(6, 23) =~= s);
    assert(vre_at(raw, 6));
    l_re_from(raw, 0);
    let i = re_first(raw);
    assert(i >= 0);
    if i < 6 { let w = raw.subrange(i, i + 17); assert(vre(w)); let u = w.subrange(0, 4); assert(is_up(u[0])); assert(is_up(u[1]) && is_up(u[2]) && is_up(u[3])); assert(u[0] == raw[i]); assert(raw[i] == g[i]); assert(g[0] == 123 && g[1] == 34 && g[2] == 118 && g[3] == 34 && g[4] == 58 && g[5] == 34); assert(false); }
    assert(raw.take(6) + vs + raw.skip(23) =~= g + vs + t1);
}
