// ------------------------------------------------------------------------------------------
// Events and credentials (sadder.rs, serder.rs, creder.rs)
// ------------------------------------------------------------------------------------------
pub struct SV { pub code: Seq<u8>, pub raw: Seq<u8>, pub ked: DV, pub ident: Seq<u8>, pub kind: Seq<u8>, pub size: int, pub major: int, pub minor: int, pub said: MV }
pub open spec fn sd_id(d: DV, code: Seq<u8>) -> Option<MV> {
    if !(d is Obj) || !d_has(d, lab_d()) || !(d_get(d, lab_d()) is Str) { None } else {
        match m_only(m_parse(d_get(d, lab_d())->Str_0), dg_ty()) { Some(m) => if m.code == code { Some(m) } else { None }, None => None } }
}
// from content
pub open spec fn sd_ked(d: DV, kind: Option<Seq<u8>>, code: Seq<u8>) -> Option<SV> {
    match sz_of(d, kind) { None => None, Some((raw, d2, id)) => match sd_id(d2, code) { None => None,
        Some(m) => Some(SV { code: code, raw: raw, ked: d2, ident: id, kind: t_json(), size: raw.len() as int, major: 1, minor: 0, said: m }) } }
}
// from raw bytes
pub open spec fn sd_raw(raw: Seq<u8>, code: Seq<u8>) -> Option<SV> {
    match sn_of(raw) { None => None, Some(x) => if x.1 != 1 || x.2 != 0 { None } else {
        match lo_of(raw, Some(x.4 as u32), Some(x.3)) { None => None, Some(d) => match sd_id(d, code) { None => None,
            Some(m) => Some(SV { code: code, raw: raw.take(x.4), ked: d, ident: x.0, kind: x.3, size: x.4, major: 1, minor: 0, said: m }) } } } }
}
pub open spec fn sd_code(c: Option<Seq<u8>>) -> Seq<u8> { if c.is_some() { c->Some_0 } else { seq![69u8] } }
pub open spec fn sd_new(code: Option<&Str>, raw: Option<&[u8]>, kind: Option<&Str>, ked: Option<&crate::data::Value>) -> Option<SV> {
    if raw.is_some() { sd_raw(raw->Some_0@, sd_code(oss(code))) } else if ked.is_some() { sd_ked(vw(*ked->Some_0), ostr(kind), sd_code(oss(code))) } else { None }
}
pub open spec fn sd_only(s: Option<SV>, id: Seq<u8>) -> Option<SV> { match s { Some(x) => if x.ident == id { Some(x) } else { None }, None => None } }
pub open spec fn sd_fits(raw: Option<&[u8]>, ked: Option<&crate::data::Value>) -> bool { raw.is_none() && ked.is_some() ==> jsn(vw(*ked->Some_0)).len() <= 0xffff_ffff }
pub proof fn l_sn(raw: Seq<u8>)
    requires sn_of(raw).is_some()
    ensures ({ let x = sn_of(raw)->Some_0; 0 <= x.1 <= 15 && 0 <= x.2 <= 15 && 0 <= x.4 <= 0xff_ffff && x.3 == t_json() })
{ let h = sn_head(raw); l_re_first(h); let i = re_first(h); l_vs_hex(h.subrange(i, i + 17)); }
// an event built from its content
pub proof fn thm_event_built(d: DV, kind: Option<Seq<u8>>, code: Seq<u8>)
    requires sd_ked(d, kind, code).is_some()
    ensures ({ let s = sd_ked(d, kind, code)->Some_0;
        s.raw == jsn(s.ked) && s.size == s.raw.len() && t_id(s.ident)
        && d_get(s.ked, lab_v()) == DV::Str(vs_text(s.ident, 1, 0, t_json(), s.raw.len() as int))
        && (forall|k: Seq<u8>| k != lab_v() ==> d_has(s.ked, k) == d_has(d, k) && (d_has(d, k) ==> d_get(s.ked, k) == d_get(d, k)))
        && d_get(d, lab_d()) is Str && m_parse(d_get(d, lab_d())->Str_0) == Some(s.said) && t_wf(s.said, dg_ty()) && s.said.code == code
        // building again from what was built changes nothing
        && sd_ked(s.ked, kind, code) == Some(s) })
{
    thm_sizeify(d, kind); thm_sizeify_idem(d, kind);
    let s = sd_ked(d, kind, code)->Some_0;
    l_labs();
    thm_m_text_canonical(d_get(s.ked, lab_d())->Str_0);
    thm_version(s.ident, 1, 0, t_json(), s.raw.len() as int);
}
// the first 29 bytes decide: a version string there is found also when other bytes follow
pub proof fn l_sn_head(raw: Seq<u8>, tail: Seq<u8>)
    requires re_first(raw) >= 0, re_first(raw) <= 12, raw.len() >= 29
    ensures ({ let i = re_first(raw); let h = sn_head(raw + tail); re_first(h) == i && h.subrange(i, i + 17) == raw.subrange(i, i + 17) })
{
    let i = re_first(raw); let h = sn_head(raw + tail);
    l_re_from(raw, 0);
    let w = raw.subrange(i, i + 17);
    l_vre_ascii(w);
    assert forall|j: int| i <= j < i + 17 implies h[j] == raw[j] by { assert(w[j - i] == raw[j]); }
    assert(h.subrange(i, i + 17) =~= w);
    assert(vre_at(h, i));
    l_re_from(h, 0);
    let j = re_first(h);
    if j < i {
        let u = h.subrange(j, j + 17);
        assert(vre(u));
        l_vre_ascii(u);
        assert forall|q: int| 0 <= q < 17 implies u[q] == #[trigger] raw.subrange(j, j + 17)[q] by { assert(u[q] == h[j + q]); assert(u[q] != 63); }
        assert(u =~= raw.subrange(j, j + 17));
        assert(vre_at(raw, j));
        assert(false);
    }
}
pub proof fn l_vre_ascii(s: Seq<u8>) requires vre(s) ensures forall|i: int| 0 <= i < 17 ==> #[trigger] s[i] < 128 && s[i] != 63 {
    l_vre_plain(s);
    assert forall|i: int| 0 <= i < 17 implies #[trigger] s[i] < 128 && s[i] != 63 by { if i < 16 { assert(b64i(s[i] as int) >= 0); } }
}
pub proof fn l_joined_two(a: Seq<Seq<u8>>, i: int, j: int)
    requires 0 <= i < j < a.len()
    ensures joined(a, seq![44u8]).len() >= a[i].len() + a[j].len() + 1
    decreases a.len()
{
    let p = a.drop_last();
    if j < p.len() { l_joined_two(p, i, j); assert(p[i] == a[i] && p[j] == a[j]); } else { l_joined_one(p, i); }
}
pub proof fn l_joined_one(a: Seq<Seq<u8>>, i: int)
    requires 0 <= i < a.len()
    ensures joined(a, seq![44u8]).len() >= a[i].len()
    decreases a.len()
{ if a.len() > 1 && i < a.len() - 1 { l_joined_one(a.drop_last(), i); } }
// an event is long enough to be looked into
pub proof fn l_ev_long(d: DV)
    requires d is Obj, d_has(d, lab_v()), d_has(d, lab_d()), d_get(d, lab_v()) is Str, vre(d_get(d, lab_v())->Str_0)
    ensures jsn(d).len() >= 29
{
    broadcast use ax_jstr_plain;
    l_labs();
    let o = d->Obj_0; let a = jsno(o);
    l_jsn_obj(o); l_o_find(o, lab_v()); l_o_find(o, lab_d());
    let i = o_find(o, lab_v()); let j = o_find(o, lab_d());
    l_vre_plain(d_get(d, lab_v())->Str_0);
    assert(a[i].len() == 23); assert(a[j].len() >= 4);
    if i < j { l_joined_two(a, i, j); } else { l_joined_two(a, j, i); }
}
// C23: reading what was built from content, whatever follows it, gives the same event
pub proof fn thm_event_read(d: DV, kind: Option<Seq<u8>>, code: Seq<u8>, tail: Seq<u8>)
    requires sd_ked(d, kind, code).is_some(), dv_ok(sd_ked(d, kind, code)->Some_0.ked), dv_stable(sd_ked(d, kind, code)->Some_0.ked)
    ensures sd_raw(sd_ked(d, kind, code)->Some_0.raw + tail, code) == sd_ked(d, kind, code)
{
    broadcast use {ax_jparse_jsn, ax_json_utf8};
    let s = sd_ked(d, kind, code)->Some_0; let raw = s.raw; let n = raw.len() as int;
    thm_sizeify(d, kind);
    let r0 = jsn(d); let i = re_first(r0);
    let vs = vs_text(s.ident, 1, 0, t_json(), n);
    thm_version(s.ident, 1, 0, t_json(), n);
    l_re_splice(r0, vs);
    assert(re_first(raw) == i && raw.subrange(i, i + 17) == vs);
    l_ev_long(s.ked);
    l_sn_head(raw, tail);
    assert(vs_sniff(vs) == vs_of(vs));
    assert((raw + tail).take(n) =~= raw);
}
// ... and nothing behind the declared size matters
pub proof fn thm_event_tail(raw: Seq<u8>, code: Seq<u8>, tail: Seq<u8>)
    requires sd_raw(raw, code).is_some()
    ensures ({ let s = sd_raw(raw, code)->Some_0; s.size <= raw.len() && s.raw == raw.take(s.size) && valid_utf8(s.raw) && jparse(s.raw) == Some(s.ked)
        && sd_raw(raw + tail, code) == Some(s) && m_parse(d_get(s.ked, lab_d())->Str_0) == Some(s.said) && t_wf(s.said, dg_ty()) && s.said.code == code
        && (s.size >= 29 ==> sd_raw(s.raw + tail, code) == Some(s)) })
{
    l_sn(raw);
    let s = sd_raw(raw, code)->Some_0;
    let u = s.raw + tail;
    thm_m_text_canonical(d_get(s.ked, lab_d())->Str_0);
    assert(sn_head(raw + tail) =~= sn_head(raw));
    assert((raw + tail).take(s.size) =~= raw.take(s.size));
    if s.size >= 29 { assert(sn_head(u) =~= sn_head(raw)); assert(u.take(s.size) =~= s.raw); }
}
