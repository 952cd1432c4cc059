// ------------------------------------------------------------------------------------------
// Specification: what the accessors of events and credentials report
// ------------------------------------------------------------------------------------------
pub open spec fn lab_s() -> Seq<u8> { seq![115u8] }
pub open spec fn lab_f() -> Seq<u8> { seq![102u8] }
pub open spec fn lab_e() -> Seq<u8> { seq![101u8] }
pub open spec fn lab_kt() -> Seq<u8> { seq![107u8, 116u8] }
pub open spec fn lab_nt() -> Seq<u8> { seq![110u8, 116u8] }
pub open spec fn lab_ri() -> Seq<u8> { seq![114u8, 105u8] }
pub open spec fn ac_has(d: DV, k: Seq<u8>) -> bool { d_has(d, k) && d_get(d, k) is Arr }
pub open spec fn ac_list(d: DV, k: Seq<u8>) -> Seq<DV> { if ac_has(d, k) { d_get(d, k)->Arr_0 } else { Seq::empty() } }
pub open spec fn ac_one(x: DV, ty: spec_fn(Seq<u8>) -> bool) -> Option<MV> { match x { DV::Str(t) => m_only(m_parse(t), ty), _ => None } }
pub open spec fn ac_all(a: Seq<DV>, ty: spec_fn(Seq<u8>) -> bool) -> bool { forall|i: int| 0 <= i < a.len() ==> ac_one(#[trigger] a[i], ty).is_some() }
pub open spec fn ac_str(d: DV, k: Seq<u8>) -> Option<Seq<u8>> { if d_has(d, k) { match d_get(d, k) { DV::Str(t) => Some(t), _ => None } } else { None } }
pub open spec fn ac_sn(d: DV) -> Option<int> { match ac_str(d, lab_s()) { Some(t) => if t.len() == 0 { Some(0int) } else { p_hex(t, u128::MAX as int) }, None => None } }
pub open spec fn ac_fn(d: DV) -> Option<MV> { match ac_str(d, lab_f()) { Some(t) => m_only(m_parse(t), n_ty()), None => None } }
pub open spec fn ac_ilk(t: Seq<u8>) -> bool { t == seq![105u8, 99u8, 112u8] || t == seq![114u8, 111u8, 116u8] || t == seq![100u8, 105u8, 112u8] || t == seq![100u8, 114u8, 116u8] }
