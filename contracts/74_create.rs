// ------------------------------------------------------------------------------------------
// Specification: creating runs of keys from a salt
// ------------------------------------------------------------------------------------------
pub open spec fn n16(o: Option<u16>, d: int) -> int { if o.is_some() { o->Some_0 as int } else { d } }
// the codes of the run: those given, else `count` times the one code
pub open spec fn cr_codes(codes: Option<Vec<&Str>>, count: int, code: Seq<u8>) -> Seq<Seq<u8>> {
    if codes.is_some() && codes->Some_0@.len() > 0 { views(codes->Some_0@) } else { Seq::new(count as nat, |i: int| code) }
}
pub open spec fn cr_stem(own: Seq<u8>, stem: Option<&Str>, pidx: int) -> Seq<u8> { if own.len() > 0 { own } else { s_or(stem, hex_digits(pidx as nat)) } }
pub open spec fn cr_path(stem: Seq<u8>, ridx: int, k: int) -> Seq<u8> { stem + hex_digits(ridx as nat) + hex_digits(k as nat) }
// the seed at a path
pub open spec fn cr_key(raw: Seq<u8>, code: Seq<u8>, path: Seq<u8>, tier: Seq<u8>) -> Option<MV> {
    if !sd_ty()(code) { None } else { match a_stretch(path, raw, 32, tier) { Some(seed) => Some(MV { code, size: 0, raw: seed }), None => None } }
}
pub open spec fn cr_ok(e: Option<MV>, tr: bool) -> bool { e.is_some() && sn_verfer(e->Some_0, tr).is_some() }
pub open spec fn sbr(s: &Str) -> Seq<u8> { s@ }
// C21: two keys derived for the same salt, path, tier and code are the same key with the same verification key
pub proof fn thm_derive_same(a: crate::signing::signer::Signer, b: crate::signing::signer::Signer, e: Option<MV>, tr: bool)
    requires sn_is(a, e, tr), sn_is(b, e, tr)
    ensures a.mv() == b.mv(), a.verfer.mv() == b.verfer.mv()
{}
// C21: the key at a position does not depend on the run it is derived in
pub proof fn thm_derive_run(a: Seq<crate::signing::signer::Signer>, sa: int, b: Seq<crate::signing::signer::Signer>, sb: int, n: int,
    raw: Seq<u8>, own: Seq<u8>, code: Option<&Str>, path: Option<&Str>, tier: Option<&Str>, temp: Option<bool>, tr: bool)
    requires sa <= n < sa + a.len(), sb <= n < sb + b.len(),
        forall|i: int| 0 <= i < a.len() ==> sn_is(#[trigger] a[i], sl_nth(raw, own, code, path, tier, temp, i + sa), tr),
        forall|i: int| 0 <= i < b.len() ==> sn_is(#[trigger] b[i], sl_nth(raw, own, code, path, tier, temp, i + sb), tr),
    ensures a[n - sa].mv() == b[n - sb].mv(), a[n - sa].verfer.mv() == b[n - sb].verfer.mv()
{ thm_derive_same(a[n - sa], b[n - sb], sl_nth(raw, own, code, path, tier, temp, n), tr); }
// C21: the creator's keys are the salt's keys at stem + ridx + position
pub proof fn thm_create_is_derive(raw: Seq<u8>, own: Seq<u8>, ctier: &Str, code: &Str, stem: Seq<u8>, ridx: int, k: int, temp: bool)
    ensures cr_key(raw, code@, cr_path(stem, ridx, k), if temp { t_min() } else { ctier@ }) == sl_signer(raw, own, Some(code), cr_path(stem, ridx, k), Some(ctier), Some(temp))
{}
// C21: an explicit tier overrides the salt's own, and temporary mode always means the minimum tier
pub proof fn thm_tier(own: Seq<u8>, tier: Option<&Str>)
    ensures sl_tier(own, tier, Some(true)) == t_min(), tier.is_some() ==> sl_tier(own, tier, None) == tier->Some_0@ && sl_tier(own, tier, Some(false)) == tier->Some_0@,
        tier.is_none() ==> sl_tier(own, tier, None) == own
{}
