// ------------------------------------------------------------------------------------------
// Self-addressing identifiers (saider.rs)
// ------------------------------------------------------------------------------------------
pub open spec fn o_dels(o: DObj, ks: Seq<&Str>) -> DObj decreases ks.len() { if ks.len() == 0 { o } else { o_del(o_dels(o, ks.drop_last()), ks.last()@) } }
pub open spec fn ign<'a>(g: Option<&'a [&'a Str]>) -> Seq<&'a Str> { if g.is_some() { g->Some_0@ } else { seq![] } }
pub open spec fn sa_label(l: Option<&Str>) -> Seq<u8> { if l.is_some() { l->Some_0@ } else { seq![100u8] } }
pub open spec fn sa_code(c: Option<Seq<u8>>) -> Seq<u8> { if c.is_some() { c->Some_0 } else { seq![69u8] } }
pub proof fn l_dg_codes(c: Seq<u8>)
    requires h_alg(c).is_some()
    ensures m_sz(c).is_some(), m_sz(c)->Some_0.fs == 44 || m_sz(c)->Some_0.fs == 88, ascii(dummy(c)), valid_utf8(dummy(c)), dummy(c).len() == m_sz(c)->Some_0.fs
{ broadcast use ax_valid_ascii; reveal(m_sz); }
pub open spec fn dummy(code: Seq<u8>) -> Seq<u8> { rept(35u8, m_sz(code)->Some_0.fs) }
// the structure with the label filled in
pub open spec fn sa_fill(d: DV, label: Seq<u8>, code: Seq<u8>) -> DV { d_set(d, label, DV::Str(dummy(code))) }
pub open spec fn sa_ver(d1: DV, kind: Option<Seq<u8>>) -> Option<(Option<Seq<u8>>, DV)> {
    if d_has(d1, lab_v()) { match sz_of(d1, kind) { Some((raw, d2, id)) => Some((Some(t_json()), d2)), None => None } } else { Some((kind, d1)) }
}
// serialisation of a structure; only JSON
pub open spec fn sa_ser(d: DV, kind: Option<Seq<u8>>) -> Option<Seq<u8>> {
    if !(d is Obj) { None }
    else if d_has(d, lab_v()) && (!(d_get(d, lab_v()) is Str) || vs_of(d_get(d, lab_v())->Str_0).is_none()) { None }
    else if kind.is_some() && kind->Some_0 != t_json() { None }
    else { Some(jsn(d)) }
}
// digest, and the structure with the label filled in and the version string's size updated
pub open spec fn sa_derive(d: DV, code: Seq<u8>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>) -> Option<(Seq<u8>, DV)> {
    if h_alg(code).is_none() || !(d is Obj) { None } else {
        match sa_ver(sa_fill(d, label, code), kind) { None => None, Some((k, d2)) =>
            match sa_ser(DV::Obj(o_dels(d2->Obj_0, ig)), k) { None => None, Some(t) => Some((h_dig(code, t), d2)) } }
    }
}
pub open spec fn sa_mv(code: Seq<u8>, raw: Seq<u8>) -> MV { MV { code: code, size: 0, raw: raw } }
// the identifier of a structure: from its digest under the given code, or the code found at the label
pub open spec fn sa_find(d: DV, code: Option<Seq<u8>>, label: Seq<u8>) -> Option<Seq<u8>> {
    if !d_has(d, label) { None } else if code.is_some() { code }
    else if !(d_get(d, label) is Str) { None }
    else if d_get(d, label)->Str_0.len() == 0 { Some(seq![69u8]) }
    else { match m_parse(d_get(d, label)->Str_0) { Some(m) => Some(m.code), None => None } }
}
pub open spec fn sa_of(d: DV, code: Option<Seq<u8>>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>) -> Option<MV> {
    match sa_find(d, code, label) { None => None, Some(c) => match sa_derive(d, c, kind, label, ig) { None => None, Some((raw, d2)) => Some(sa_mv(c, raw)) } }
}
pub open spec fn sa_fits(d: DV, code: Option<Seq<u8>>, label: Seq<u8>) -> bool { match sa_find(d, code, label) { Some(c) => jsn(sa_fill(d, label, c)).len() <= 0xffff_ffff, None => true } }
pub proof fn l_dg_code_of(c: Seq<u8>, raw: Seq<u8>)
    ensures m_new(c, raw).is_some() && h_alg(m_new(c, raw)->Some_0.code).is_some() ==> m_new(c, raw)->Some_0.code == c, h_alg(c).is_none() && m_new(c, raw).is_some() ==> h_alg(m_new(c, raw)->Some_0.code).is_none()
{ if m_new(c, raw).is_some() && 52 <= c[0] <= 57 { assert(m_new(c, raw)->Some_0.code[0] >= 52); } }
pub proof fn l_sa_of(d: DV, code: Option<Seq<u8>>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>)
    ensures sa_of(d, code, kind, label, ig).is_some() ==> t_wf(sa_of(d, code, kind, label, ig)->Some_0, dg_ty()) && ({ let m = sa_of(d, code, kind, label, ig)->Some_0; m_new(m.code, m.raw) == Some(m) && m.raw.len() < MAXLEN })
{
    broadcast use ax_hash;
    if sa_of(d, code, kind, label, ig).is_some() { let m = sa_of(d, code, kind, label, ig)->Some_0; l_dg_new(m.code, m.raw); }
}
// making a structure self-addressing
pub open spec fn sa_made(d: DV, code: Seq<u8>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>) -> Option<(MV, DV)> {
    if !d_has(d, label) { None } else { match sa_derive(d, code, kind, label, ig) { None => None, Some((raw, d2)) => Some((sa_mv(code, raw), d_set(d2, label, DV::Str(m_text(sa_mv(code, raw)))))) } }
}
// verification
pub open spec fn sa_verify(m: MV, d: DV, prefixed: bool, versioned: bool, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>) -> bool {
    match sa_derive(d, m.code, kind, label, ig) { None => false, Some((raw, d2)) =>
        raw == m.raw && (versioned && d_has(d, lab_v()) ==> d_get(d, lab_v()) == d_get(d2, lab_v())) && (prefixed ==> d_has(d, label) && d_get(d, label) == DV::Str(m_text(m))) }
}
// a version string has no overlap with itself, so writing another one in its place leaves the first one where it is
pub proof fn l_re_splice(raw: Seq<u8>, vs: Seq<u8>)
    requires re_first(raw) >= 0, vre(vs)
    ensures ({ let i = re_first(raw); let r2 = raw.take(i) + vs + raw.skip(i + 17); re_first(r2) == i && r2.subrange(i, i + 17) == vs && r2.take(i) + vs + r2.skip(i + 17) == r2 })
{
    let i = re_first(raw);
    l_re_from(raw, 0);
    let r2 = raw.take(i) + vs + raw.skip(i + 17);
    assert(r2.subrange(i, i + 17) =~= vs);
    assert(r2.take(i) + vs + r2.skip(i + 17) =~= r2);
    assert(vre_at(r2, i));
    l_re_from(r2, 0);
    let j = re_first(r2);
    assert(0 <= j <= i);
    if j < i {
        let w = r2.subrange(j, j + 17);
        assert(vre(w));
        if j + 17 <= i { assert(raw.subrange(j, j + 17) =~= w); assert(vre_at(raw, j)); assert(false); }
        else {
            // the last character of the earlier match is inside the other one, but is no '_' there
            let p = j + 16 - i;
            assert(w[16] == vs[p] && 0 <= p < 16);
            if p < 4 { assert(is_up(vs.subrange(0, 4)[p])); } else if p < 6 { assert(is_lhex(vs.subrange(4, 6)[p - 4])); } else if p < 10 { assert(is_up(vs.subrange(6, 10)[p - 6])); } else { assert(is_lhex(vs.subrange(10, 16)[p - 10])); }
            assert(false);
        }
    }
}
// sizing what has been sized changes nothing
pub proof fn thm_sizeify_idem(d: DV, kind: Option<Seq<u8>>)
    requires sz_of(d, kind).is_some()
    ensures sz_of(sz_of(d, kind)->Some_0.1, kind) == sz_of(d, kind), sz_of(d, kind)->Some_0.1 is Obj
{
    thm_sizeify(d, kind);
    let (raw, d2, id) = sz_of(d, kind)->Some_0;
    let r0 = jsn(d);
    let vs = vs_text(id, 1, 0, t_json(), r0.len() as int);
    thm_version(id, 1, 0, t_json(), r0.len() as int);
    l_re_splice(r0, vs);
    l_o_set_same(d2->Obj_0, lab_v());
    assert(d_set(d2, lab_v(), DV::Str(vs)) == d2);
}
pub proof fn l_sa_ver(d1: DV, kind: Option<Seq<u8>>, label: Seq<u8>)
    requires d1 is Obj, d_has(d1, label), sa_ver(d1, kind).is_some(), label != lab_v()
    ensures ({ let (k, d2) = sa_ver(d1, kind)->Some_0; d2 is Obj && d_has(d2, label) && d_get(d2, label) == d_get(d1, label) && d_has(d2, lab_v()) == d_has(d1, lab_v()) && sa_ver(d2, kind) == sa_ver(d1, kind)
        && jsn(d2).len() == jsn(d1).len() && (forall|k2: Seq<u8>| k2 != lab_v() ==> d_has(d2, k2) == d_has(d1, k2) && (d_has(d1, k2) ==> d_get(d2, k2) == d_get(d1, k2)))
        && (d_has(d1, lab_v()) ==> d_get(d2, lab_v()) is Str) })
{ if d_has(d1, lab_v()) { thm_sizeify(d1, kind); thm_sizeify_idem(d1, kind); } }
// with the version string's own label no identifier can be made
pub proof fn l_sa_label_v(d: DV, code: Seq<u8>, kind: Option<Seq<u8>>, ig: Seq<&Str>)
    ensures sa_derive(d, code, kind, lab_v(), ig).is_none()
{
    let d1 = sa_fill(d, lab_v(), code);
    l_o_set(d->Obj_0, lab_v(), DV::Str(dummy(code)), lab_v());
    if d is Obj {
        let s = dummy(code);
        if vre(s) { assert(s[16] == 95); }
        assert(vs_of(s).is_none());
    }
}
pub proof fn l_d_set(d: DV, k: Seq<u8>, v: DV, k2: Seq<u8>)
    requires d is Obj
    ensures d_set(d, k, v) is Obj, d_has(d_set(d, k, v), k), d_get(d_set(d, k, v), k) == v,
        k2 != k ==> d_has(d_set(d, k, v), k2) == d_has(d, k2) && (d_has(d, k2) ==> d_get(d_set(d, k, v), k2) == d_get(d, k2))
{ l_o_set(d->Obj_0, k, v, k2); }
// deriving from what a derivation returned, or from that with another value at the label, gives the same
pub proof fn l_sa_again(d: DV, code: Seq<u8>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>, v: DV)
    requires sa_derive(d, code, kind, label, ig).is_some()
    ensures ({ let (raw, d2) = sa_derive(d, code, kind, label, ig)->Some_0; let d3 = d_set(d2, label, v);
        d2 is Obj && d_has(d2, label) && sa_fill(d2, label, code) == d2 && sa_derive(d2, code, kind, label, ig) == sa_derive(d, code, kind, label, ig)
        && d_has(d3, label) && d_get(d3, label) == v && sa_fill(d3, label, code) == d2 && sa_derive(d3, code, kind, label, ig) == sa_derive(d, code, kind, label, ig)
        && d_has(d3, lab_v()) == d_has(d2, lab_v()) && (d_has(d2, lab_v()) ==> d_get(d3, lab_v()) == d_get(d2, lab_v()))
        && jsn(d2).len() == jsn(sa_fill(d, label, code)).len()
        && d_has(d2, lab_v()) == d_has(d, lab_v())
        && (forall|k2: Seq<u8>| k2 != lab_v() && k2 != label ==> d_has(d3, k2) == d_has(d, k2) && (d_has(d, k2) ==> d_get(d3, k2) == d_get(d, k2)))
        && label != lab_v() && (d_has(d2, lab_v()) ==> d_get(d2, lab_v()) is Str) })
{
    l_sa_label_v(d, code, kind, ig);
    let d1 = sa_fill(d, label, code); let dm = DV::Str(dummy(code));
    l_o_set(d->Obj_0, label, dm, label);
    l_o_set(d->Obj_0, label, dm, lab_v());
    l_sa_ver(d1, kind, label);
    let (raw, d2) = sa_derive(d, code, kind, label, ig)->Some_0;
    assert(d_get(d2, label) == dm);
    l_o_set_same(d2->Obj_0, label);
    assert(d2 == DV::Obj(d2->Obj_0));
    assert(sa_fill(d2, label, code) == d2);
    let d3 = d_set(d2, label, v);
    l_o_set(d2->Obj_0, label, v, label); l_o_set(d2->Obj_0, label, v, lab_v());
    l_o_set2(d2->Obj_0, label, v, dm);
    assert forall|k2: Seq<u8>| k2 != lab_v() && k2 != label implies d_has(d3, k2) == d_has(d, k2) && (d_has(d, k2) ==> d_get(d3, k2) == d_get(d, k2)) by {
        l_d_set(d2, label, v, k2); l_d_set(d, label, dm, k2);
        assert(d_has(d1, k2) == d_has(d, k2) && (d_has(d, k2) ==> d_get(d1, k2) == d_get(d, k2)));
        assert(d_has(d2, k2) == d_has(d1, k2) && (d_has(d1, k2) ==> d_get(d2, k2) == d_get(d1, k2)));
        assert(d_has(d3, k2) == d_has(d2, k2) && (d_has(d2, k2) ==> d_get(d3, k2) == d_get(d2, k2)));
    }
}
// C16: what has been made self-addressing verifies; only the label and the size in the version string are written
#[verifier::spinoff_prover]
pub proof fn thm_saidify(d: DV, code: Seq<u8>, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>)
    requires sa_made(d, code, kind, label, ig).is_some()
    ensures ({ let (m, d3) = sa_made(d, code, kind, label, ig)->Some_0;
        t_wf(m, dg_ty()) && d_get(d3, label) == DV::Str(m_text(m)) && m_parse(m_text(m)) == Some(m)
        && sa_verify(m, d3, true, true, kind, label, ig)
        && (forall|k2: Seq<u8>| k2 != lab_v() && k2 != label ==> d_has(d3, k2) == d_has(d, k2) && (d_has(d, k2) ==> d_get(d3, k2) == d_get(d, k2)))
        && sa_of(d3, None, kind, label, ig) == Some(m) })
{
    broadcast use ax_hash;
    let (m, d3) = sa_made(d, code, kind, label, ig)->Some_0;
    l_sa_again(d, code, kind, label, ig, DV::Str(m_text(m)));
    l_dg_new(code, m.raw);
    thm_m_new_wf(code, m.raw);
    assert(m_text(m).is_prefix_of(m_text(m)));
    thm_m_text_roundtrip(m, m_text(m));
    l_m_both(m);
}
// ... and a structure verifies under an identifier only if its own digest (label filled in) is that identifier
pub proof fn thm_said_only(m: MV, d: DV, kind: Option<Seq<u8>>, label: Seq<u8>, ig: Seq<&Str>)
    requires sa_verify(m, d, true, true, kind, label, ig)
    ensures d_get(d, label) == DV::Str(m_text(m)), sa_derive(d, m.code, kind, label, ig)->Some_0.0 == m.raw,
        d_has(d, lab_v()) ==> d_get(d, lab_v()) == d_get(sa_derive(d, m.code, kind, label, ig)->Some_0.1, lab_v())
{}
