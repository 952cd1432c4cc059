// ------------------------------------------------------------------------------------------
// Specification: messages with attached signatures, receipts, runs of random keys
// ------------------------------------------------------------------------------------------
pub open spec fn ms_ivs(a: &[crate::cesr::core::siger::Siger]) -> Seq<IV> { Seq::new(a@.len(), |i: int| a@[i].iv()) }
// the texts of signatures one after the other
pub open spec fn ms_sigs(a: Seq<IV>) -> Seq<u8> decreases a.len() { if a.len() == 0 { Seq::empty() } else { ms_sigs(a.drop_last()) + i_text(a.last()) } }
// a group: its counter code with the number of signatures, then the signatures
pub open spec fn ms_group(code: Seq<u8>, a: Seq<IV>) -> Option<Seq<u8>> { match c_new(code, a.len() as u32 as int) { Some(c) => Some(c_text(c) + ms_sigs(a)), None => None } }
// where the signers' keys are established: by the last event, or by the event with a given number and digest
pub open spec fn ms_seal(x: Option<&crate::seal::Seal>) -> Option<Seq<u8>> {
    match x { None => Some(Seq::empty()), Some(s) =>
        if s.last { Some(c_text(CV { code: seq![45u8, 72u8], count: 1 }) + s.i@) }
        else { match p_hex(s.s@, u128::MAX as int) { Some(n) => Some(c_text(CV { code: seq![45u8, 70u8], count: 1 }) + s.i@ + m_text(sq_mv(n)) + s.d@), None => None } } }
}
pub open spec fn ms_opt(code: Seq<u8>, a: Option<&[crate::cesr::core::siger::Siger]>) -> Option<Seq<u8>> { match a { None => Some(Seq::empty()), Some(x) => ms_group(code, ms_ivs(x)) } }
pub open spec fn ms_cat(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> { if a.is_some() && b.is_some() { Some(a->Some_0 + b->Some_0) } else { None } }
pub open spec fn ms_atc(sigers: Option<&[crate::cesr::core::siger::Siger]>, seal: Option<&crate::seal::Seal>, wigers: Option<&[crate::cesr::core::siger::Siger]>) -> Option<Seq<u8>> {
    ms_cat(if sigers.is_some() { ms_cat(ms_seal(seal), ms_opt(seq![45u8, 65u8], sigers)) } else { Some(Seq::empty()) }, ms_opt(seq![45u8, 66u8], wigers))
}
pub open spec fn ms_ok(a: Option<&[crate::cesr::core::siger::Siger]>) -> bool { match a { Some(x) => x@.len() <= 0xffff_ffff && forall|i: int| 0 <= i < x@.len() ==> i_wf((#[trigger] x@[i]).iv()) && i_st(x@[i].iv()), None => true } }
pub open spec fn ms_wf(a: Seq<IV>) -> bool { forall|i: int| 0 <= i < a.len() ==> i_wf(#[trigger] a[i]) && i_st(a[i]) }
pub proof fn l_ms_step(a: Seq<IV>, k: int) requires 0 < k <= a.len() ensures ms_sigs(a.take(k)) == ms_sigs(a.take(k - 1)) + i_text(a[k - 1]) { assert(a.take(k).drop_last() =~= a.take(k - 1)); }

// reading n signatures off the front
pub open spec fn ms_read(s: Seq<u8>, n: nat) -> Option<(Seq<IV>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else { match i_parse(s) { None => None, Some(v) => match ms_read(s.skip(i_fs(v)), (n - 1) as nat) { None => None, Some((r, t)) => Some((seq![v] + r, t)) } } }
}
pub proof fn l_ms_front(a: Seq<IV>)
    requires a.len() > 0
    ensures ms_sigs(a) == i_text(a[0]) + ms_sigs(a.skip(1))
    decreases a.len()
{
    if a.len() == 1 { assert(a.drop_last() =~= Seq::empty()); assert(a.skip(1) =~= Seq::empty()); assert(ms_sigs(a) =~= i_text(a[0]) + ms_sigs(a.skip(1))); }
    else { l_ms_front(a.drop_last()); assert(a.skip(1).drop_last() =~= a.drop_last().skip(1)); assert(ms_sigs(a) =~= i_text(a[0]) + ms_sigs(a.skip(1))); }
}
pub proof fn l_ms_read(a: Seq<IV>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> i_wf(#[trigger] a[i])
    ensures ms_read(ms_sigs(a) + t, a.len()) == Some((a, t))
    decreases a.len()
{
    if a.len() == 0 { assert(ms_sigs(a) + t =~= t); assert(a =~= Seq::empty()); }
    else {
        l_ms_front(a);
        let s = ms_sigs(a) + t; let r = ms_sigs(a.skip(1)) + t;
        assert(s =~= i_text(a[0]) + r);
        assert(i_text(a[0]).is_prefix_of(s));
        assert(i_wf(a[0]));
        thm_i_text_roundtrip(a[0], s);
        assert(s.skip(i_fs(a[0])) =~= r);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies i_wf(#[trigger] a.skip(1)[i]) by { assert(i_wf(a[i + 1])); }
        l_ms_read(a.skip(1), t);
        assert(seq![a[0]] + a.skip(1) =~= a);
    }
}
// C26: a group is read back with its code, its count and its signatures, whatever follows
pub proof fn thm_group_framed(code: Seq<u8>, a: Seq<IV>, t: Seq<u8>)
    requires ms_group(code, a).is_some(), a.len() <= 0xffff_ffff, forall|i: int| 0 <= i < a.len() ==> i_wf(#[trigger] a[i])
    ensures ({ let s = ms_group(code, a)->Some_0 + t; c_parse(s) == Some(CV { code: code, count: a.len() as int }) && ms_read(s.skip(c_sz(code)->Some_0.fs), a.len()) == Some((a, t)) })
{
    let s = ms_group(code, a)->Some_0 + t; let c = CV { code: code, count: a.len() as int };
    l_c_text(c); l_csz(code);
    assert(s =~= c_text(c) + (ms_sigs(a) + t));
    assert(c_text(c).is_prefix_of(s));
    thm_c_text_roundtrip(c, s);
    assert(s.skip(c_sz(code)->Some_0.fs) =~= ms_sigs(a) + t);
    l_ms_read(a, t);
}
// a group of more signatures than its counter can count is refused
pub proof fn thm_group_bound(code: Seq<u8>, a: Seq<IV>)
    requires code == seq![45u8, 65u8] || code == seq![45u8, 66u8], a.len() <= 0xffff_ffff
    ensures ms_group(code, a).is_some() == (a.len() <= 4095)
{ l_pow64(2); assert(vpow(64, 2) == 4096) by { reveal_with_fuel(vpow, 3); } reveal(c_sz); }

pub broadcast proof fn l_ms_c(code: Seq<u8>, n: int) requires code.len() == 2, code[0] == 45, 65 <= code[1] <= 76, 0 <= n < 4096 ensures #[trigger] c_new(code, n) == Some(CV { code: code, count: n }) { l_pow64(2); assert(vpow(64, 2) == 4096) by { reveal_with_fuel(vpow, 3); } reveal(c_sz); }
// the content of a receipt
pub open spec fn rc_dv(pre: Seq<u8>, sn: int, said: Seq<u8>, version: Option<&crate::cesr::core::common::Version>, kind: Option<&Str>) -> Option<DV> {
    let (ma, mi) = if version.is_some() { (version->Some_0.major as int, version->Some_0.minor as int) } else { (1int, 0int) }; let k = s_or(kind, t_json());
    if !vs_ok(t_keri(), ma, mi, k, 0) { None } else {
        let o1 = o_set(Seq::empty(), lab_v(), DV::Str(vs_text(t_keri(), ma, mi, k, 0))); let o2 = o_set(o1, lab_t(), DV::Str(seq![114u8, 99u8, 116u8])); let o3 = o_set(o2, lab_d(), DV::Str(said));
        let o4 = o_set(o3, lab_i(), DV::Str(pre)); Some(DV::Obj(o_set(o4, lab_s(), DV::Str(hex_digits(sn as nat))))) }
}
// C26: the fields of a receipt, in their order
pub proof fn thm_receipt(pre: Seq<u8>, sn: int, said: Seq<u8>, version: Option<&crate::cesr::core::common::Version>, kind: Option<&Str>)
    requires rc_dv(pre, sn, said, version, kind).is_some(), sn >= 0
    ensures ({ let d = rc_dv(pre, sn, said, version, kind)->Some_0; d is Obj && d->Obj_0.len() == 5
        && d->Obj_0[0].0 == lab_v() && d->Obj_0[1] == (lab_t(), DV::Str(seq![114u8, 99u8, 116u8])) && d->Obj_0[2] == (lab_d(), DV::Str(said)) && d->Obj_0[3] == (lab_i(), DV::Str(pre))
        && d->Obj_0[4] == (lab_s(), DV::Str(hex_digits(sn as nat))) })
{
    l_labs(); reveal_with_fuel(o_find, 6);
    let d = rc_dv(pre, sn, said, version, kind)->Some_0;
    assert(lab_s()[0] == 115);
    assert(lab_v()[0] == 118 && lab_t()[0] == 116 && lab_d()[0] == 100 && lab_i()[0] == 105);
}
// a fresh key of a code
pub open spec fn sn_rand(r: crate::signing::signer::Signer, code: Seq<u8>, tr: bool) -> bool { r.mv().code == code && sn_is(r, Some(r.mv()), tr) }
