// ------------------------------------------------------------------------------------------
// Structured data: the real enum of data.rs is emitted; its view is a tree of values
// ------------------------------------------------------------------------------------------
// @ext serde_json::Value serde_json::json serde_json::from_str serde_json::to_string_pretty indexmap::IndexMap
// @alias data
// @vix data cesr::core::common cesr::core::saider prefexing::prefixer cesr::core::sadder cesr::core::serder cesr::core::creder cesr::core::tholder pathing::pather
pub enum DV { Null, Bool(bool), Int(int), Flt(F32), Str(Seq<u8>), Arr(Seq<DV>), Obj(Seq<(Seq<u8>, DV)>) }
pub open spec fn sb(s: Str) -> Seq<u8> { s@ }
pub type DObj = Seq<(Seq<u8>, DV)>;

pub mod extd {
pub mod indexmap { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)]
    pub struct IndexMap<K, V> { k: Vec<(K, V)> }
    impl View for IndexMap<Str, crate::data::Value> { type V = DObj; uninterp spec fn view(&self) -> DObj; }
    impl IndexMap<Str, crate::data::Value> {
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == DObj::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn contains_key(&self, k: &Str) -> (r: bool) ensures r == o_has(self@, k@) { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, k: &Str) -> (r: Option<&crate::data::Value>) ensures r.is_some() == o_has(self@, k@), r.is_some() ==> vw(*r->Some_0) == o_get(self@, k@) { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: Str, v: crate::data::Value) -> (r: Option<crate::data::Value>) ensures final(self)@ == o_set(old(self)@, k@, vw(v)) { unimplemented!() }
        #[verifier::external_body] pub fn shift_remove(&mut self, k: &Str) -> (r: Option<crate::data::Value>) ensures final(self)@ == o_del(old(self)@, k@) { unimplemented!() }
    }
    impl Clone for IndexMap<Str, crate::data::Value> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl<'a> VIter for &'a IndexMap<Str, crate::data::Value> { type Item = (&'a Str, &'a crate::data::Value); open spec fn its(&self) -> Seq<(&'a Str, &'a crate::data::Value)> { im_items(**self) }
        #[verifier::external_body] fn vp_iter(self) -> (r: It<(&'a Str, &'a crate::data::Value)>) { unimplemented!() } }
    pub uninterp spec fn im_items<'a>(m: IndexMap<Str, crate::data::Value>) -> Seq<(&'a Str, &'a crate::data::Value)>;
    // the items of a map, in order; keys are distinct
    pub broadcast axiom fn ax_im_items<'a>(m: IndexMap<Str, crate::data::Value>)
        ensures (#[trigger] im_items::<'a>(m)).len() == m@.len(), forall|i: int| 0 <= i < m@.len() ==> (#[trigger] im_items::<'a>(m)[i]).0@ == m@[i].0 && vw(*im_items::<'a>(m)[i].1) == m@[i].1;
    pub broadcast axiom fn ax_im_keys(m: IndexMap<Str, crate::data::Value>)
        ensures o_distinct(#[trigger] m@);
    impl<'b> VIx<&'b Str> for IndexMap<Str, crate::data::Value> { type Out = crate::data::Value;
        open spec fn ix_ok(&self, i: &'b Str) -> bool { o_has(self@, i@) }
        open spec fn ix_is(&self, i: &'b Str, o: &crate::data::Value) -> bool { vw(*o) == o_get(self@, i@) }
        #[verifier::external_body] fn vix(&self, i: &'b Str) -> (r: &crate::data::Value) { unimplemented!() } }
    impl VIx<usize> for IndexMap<Str, crate::data::Value> { type Out = crate::data::Value;
        open spec fn ix_ok(&self, i: usize) -> bool { i < self@.len() }
        open spec fn ix_is(&self, i: usize, o: &crate::data::Value) -> bool { vw(*o) == self@[i as int].1 }
        #[verifier::external_body] fn vix(&self, i: usize) -> (r: &crate::data::Value) { unimplemented!() } }
    impl IndexMap<Str, crate::data::Value> {
        #[verifier::external_body] pub fn vixm(&mut self, k: &Str) -> (r: &mut crate::data::Value)
            requires o_has(old(self)@, k@)
            ensures vw(*r) == o_get(old(self)@, k@), final(self)@ == o_set(old(self)@, k@, vw(*final(r))) { unimplemented!() }
    }
}
// num-rational: reduced fractions of machine integers, denominator positive (only non-negative ones occur)
pub mod num_rational { use vstd::prelude::*; use super::super::*; use vstd::std_specs::cmp::{PartialEqSpecImpl, PartialOrdSpecImpl};
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Rational32 { n: i32, d: i32 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Rational64 { n: i64, d: i64 }
    impl Rational32 { pub uninterp spec fn q(&self) -> Q;
        #[verifier::external_body] pub fn new(n: i32, d: i32) -> (r: Self) requires n >= 0, d > 0 ensures r.q() == red(n as int, d as int) { unimplemented!() }
        #[verifier::external_body] pub fn numer(&self) -> (r: &i32) ensures *r as int == self.q().n, 0 <= self.q().n <= i32::MAX { unimplemented!() }
        #[verifier::external_body] pub fn denom(&self) -> (r: &i32) ensures *r as int == self.q().d, 0 < self.q().d <= i32::MAX { unimplemented!() } }
    impl Rational64 { pub uninterp spec fn q(&self) -> Q;
        #[verifier::external_body] pub fn new(n: i64, d: i64) -> (r: Self) requires n >= 0, d > 0 ensures r.q() == red(n as int, d as int) { unimplemented!() }
        #[verifier::external_body] pub fn numer(&self) -> (r: &i64) ensures *r as int == self.q().n, 0 <= self.q().n <= i64::MAX { unimplemented!() }
        #[verifier::external_body] pub fn denom(&self) -> (r: &i64) ensures *r as int == self.q().d, 0 < self.q().d <= i64::MAX { unimplemented!() } }
    // the value is exact: comparison does not overflow
    impl PartialEqSpecImpl for Rational32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Rational32) -> bool { self.q().n * o.q().d == o.q().n * self.q().d } }
    impl PartialEq for Rational32 { #[verifier::external_body] fn eq(&self, o: &Rational32) -> (r: bool) { unimplemented!() } }
    impl PartialOrdSpecImpl for Rational32 { open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Rational32) -> Option<core::cmp::Ordering> { let a = self.q().n * o.q().d; let b = o.q().n * self.q().d; Some(if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) } }
    impl PartialOrd for Rational32 { #[verifier::external_body] fn partial_cmp(&self, o: &Rational32) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
    impl VDisp for Rational32 { open spec fn dv(&self) -> Seq<u8> { q_str(self.q()) }
        #[verifier::external_body] fn vdisp(&self) -> (r: Str) { unimplemented!() }
        #[verifier::external_body] fn vto_string(&self) -> (r: Str) { unimplemented!() } }
    pub broadcast axiom fn ax_r32(r: Rational32) ensures 0 <= (#[trigger] r.q()).n <= i32::MAX, 0 < r.q().d <= i32::MAX, red(r.q().n, r.q().d) == r.q();
}
pub mod serde_json { use vstd::prelude::*; use super::super::*;
    pub enum Value { Null, Bool(bool), Number(JNum), String(Str), Array(Vec<Value>), Object(Map) }
    #[verifier::external_body] pub struct JNum { x: u8 }
    #[verifier::external_body] pub struct Map { x: u8 }
    impl View for Map { type V = DObj; uninterp spec fn view(&self) -> DObj; }
    impl JNum {
        // an integer of the i64 or u64 range, or a float
        pub uninterp spec fn nv(&self) -> DV;
        #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r.is_some() == (self.nv() is Int && i64::MIN <= self.nv()->Int_0 <= i64::MAX), r.is_some() ==> r->Some_0 as int == self.nv()->Int_0 { unimplemented!() }
        #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r.is_some() == (self.nv() is Int && 0 <= self.nv()->Int_0 <= u64::MAX), r.is_some() ==> r->Some_0 as int == self.nv()->Int_0 { unimplemented!() }
        #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<F32>) ensures r.is_some(), self.nv() is Flt ==> r->Some_0 == self.nv()->Flt_0 { unimplemented!() }
        #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == (self.nv() is Int && i64::MIN <= self.nv()->Int_0 <= i64::MAX) { unimplemented!() }
        #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == (self.nv() is Int && 0 <= self.nv()->Int_0 <= u64::MAX) { unimplemented!() }
        #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r == (self.nv() is Flt) { unimplemented!() }
    }
    pub broadcast axiom fn ax_jnum(n: JNum) ensures (#[trigger] n.nv()) is Int && i_ok(n.nv()->Int_0) || n.nv() is Flt;
    pub broadcast axiom fn ax_map(m: Map) ensures o_distinct(#[trigger] m@), forall|i: int| 0 <= i < m@.len() ==> dv_ok((#[trigger] m@[i]).1);
    impl<'a> VIter for &'a Map { type Item = (&'a Str, &'a Value); open spec fn its(&self) -> Seq<(&'a Str, &'a Value)> { jm_items(**self) }
        #[verifier::external_body] fn vp_iter(self) -> (r: It<(&'a Str, &'a Value)>) { unimplemented!() } }
    pub uninterp spec fn jm_items<'a>(m: Map) -> Seq<(&'a Str, &'a Value)>;
    pub broadcast axiom fn ax_jm_items<'a>(m: Map)
        ensures (#[trigger] jm_items::<'a>(m)).len() == m@.len(), forall|i: int| 0 <= i < m@.len() ==> (#[trigger] jm_items::<'a>(m)[i]).0@ == m@[i].0 && jw(*jm_items::<'a>(m)[i].1) == m@[i].1;
    pub open spec fn jw(v: Value) -> DV decreases v {
        match v { Value::Null => DV::Null, Value::Bool(b) => DV::Bool(b), Value::Number(n) => n.nv(), Value::String(s) => DV::Str(s@),
            Value::Array(a) => DV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { jw(a@[i]) } else { DV::Null })),
            Value::Object(o) => DV::Obj(o@) }
    }
    #[verifier::external_body] pub fn from_str(s: &Str) -> (r: Result<Value>) ensures r.is_ok() == jparse(s@).is_some(), r.is_ok() ==> jw(r->Ok_0) == jparse(s@)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn to_string_pretty(v: &Value) -> (r: Result<Str>) ensures r.is_ok() ==> r->Ok_0@ == jpretty(jw(*v)) { unimplemented!() }
    pub fn json() {}
}
}
pub use extd::serde_json::jw;
pub use extd::indexmap::IndexMap;
pub use extd::serde_json::{ax_jnum, ax_map, ax_jm_items, jm_items};
pub use extd::indexmap::{ax_im_items, ax_im_keys, im_items};

// ---- the view of a Value ---------------------------------------------------------------------
pub open spec fn vw(v: crate::data::Value) -> DV decreases v {
    match v {
        crate::data::Value::Null => DV::Null,
        crate::data::Value::Boolean(b) => DV::Bool(b),
        crate::data::Value::Number(n) => n.nv(),
        crate::data::Value::String(s) => DV::Str(s@),
        crate::data::Value::Array(a) => DV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { vw(a@[i]) } else { DV::Null })),
        crate::data::Value::Object(o) => DV::Obj(o@),
    }
}
pub open spec fn vws(s: Seq<crate::data::Value>) -> Seq<DV> { Seq::new(s.len(), |i: int| vw(s[i])) }
pub broadcast proof fn l_vw_arr(a: Vec<crate::data::Value>) ensures (#[trigger] vw(crate::data::Value::Array(a))) == DV::Arr(vws(a@)) {
    assert(vw(crate::data::Value::Array(a))->Arr_0 =~= vws(a@));
}
pub open spec fn jws(s: Seq<extd::serde_json::Value>) -> Seq<DV> { Seq::new(s.len(), |i: int| jw(s[i])) }
pub broadcast proof fn l_jw_arr(a: Vec<extd::serde_json::Value>) ensures (#[trigger] jw(extd::serde_json::Value::Array(a))) == DV::Arr(jws(a@)) {
    assert(jw(extd::serde_json::Value::Array(a))->Arr_0 =~= jws(a@));
}

// ---- objects: ordered fields with distinct names ------------------------------------------------
pub open spec fn o_find(o: DObj, k: Seq<u8>) -> int decreases o.len() {
    if o.len() == 0 { -1 } else { let r = o_find(o.drop_last(), k); if r >= 0 { r } else if o.last().0 == k { o.len() - 1 } else { -1 } }
}
pub open spec fn o_has(o: DObj, k: Seq<u8>) -> bool { o_find(o, k) >= 0 }
pub open spec fn o_get(o: DObj, k: Seq<u8>) -> DV { o[o_find(o, k)].1 }
pub open spec fn o_set(o: DObj, k: Seq<u8>, v: DV) -> DObj { if o_has(o, k) { o.update(o_find(o, k), (k, v)) } else { o.push((k, v)) } }
pub open spec fn o_del(o: DObj, k: Seq<u8>) -> DObj { if o_has(o, k) { o.remove(o_find(o, k)) } else { o } }
pub open spec fn o_distinct(o: DObj) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0 }
pub open spec fn d_has(d: DV, k: Seq<u8>) -> bool { d is Obj && o_has(d->Obj_0, k) }
pub open spec fn d_get(d: DV, k: Seq<u8>) -> DV { o_get(d->Obj_0, k) }
pub open spec fn d_set(d: DV, k: Seq<u8>, v: DV) -> DV { DV::Obj(o_set(d->Obj_0, k, v)) }
pub proof fn l_o_find(o: DObj, k: Seq<u8>)
    ensures -1 <= o_find(o, k) < o.len(), o_has(o, k) ==> o[o_find(o, k)].0 == k && (forall|j: int| 0 <= j < o_find(o, k) ==> (#[trigger] o[j]).0 != k),
        !o_has(o, k) ==> forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).0 != k
    decreases o.len()
{ if o.len() > 0 { l_o_find(o.drop_last(), k); assert forall|j: int| 0 <= j < o.len() - 1 implies (#[trigger] o[j]) == o.drop_last()[j] by {} } }
pub proof fn l_o_set(o: DObj, k: Seq<u8>, v: DV, k2: Seq<u8>)
    ensures o_has(o_set(o, k, v), k), o_get(o_set(o, k, v), k) == v,
        k2 != k ==> o_has(o_set(o, k, v), k2) == o_has(o, k2) && (o_has(o, k2) ==> o_get(o_set(o, k, v), k2) == o_get(o, k2)),
        o_set(o, k, v).len() == o.len() + if o_has(o, k) { 0int } else { 1 },
        o_has(o, k) ==> forall|j: int| 0 <= j < o.len() ==> (#[trigger] o_set(o, k, v)[j]).0 == o[j].0
{
    let p = o_set(o, k, v);
    l_o_find(o, k); l_o_find(p, k); l_o_find(o, k2); l_o_find(p, k2);
    if o_has(o, k) { assert(p[o_find(o, k)].0 == k); let f = o_find(p, k); if f < o_find(o, k) { if f >= 0 { assert(p[f] == o[f]); } } if f > o_find(o, k) { assert(p[o_find(o, k)].0 != k); }
    } else { assert(p[o.len() as int].0 == k); let f = o_find(p, k); if 0 <= f < o.len() { assert(p[f] == o[f]); } }
    if k2 != k {
        if o_has(o, k2) { let f = o_find(o, k2); assert(p[f] == o[f]); let g = o_find(p, k2); if g < f && g >= 0 { assert(p[g] == o[g] || p[g].0 == k); } if g > f { assert(p[f].0 != k2); } }
        if o_has(p, k2) { let g = o_find(p, k2); assert(p[g] == o[g]); }
    }
}
pub proof fn l_o_set_same(o: DObj, k: Seq<u8>) requires o_has(o, k) ensures o_set(o, k, o_get(o, k)) == o { l_o_find(o, k); assert(o_set(o, k, o_get(o, k)) =~= o); }
pub proof fn l_o_set2(o: DObj, k: Seq<u8>, v: DV, w: DV) ensures o_set(o_set(o, k, v), k, w) == o_set(o, k, w) {
    l_o_set(o, k, v, k); l_o_find(o, k); l_o_find(o_set(o, k, v), k);
    let p = o_set(o, k, v);
    if o_has(o, k) { assert(o_find(p, k) == o_find(o, k)) by { let f = o_find(p, k); let g = o_find(o, k); assert(p[g].0 == k); if f < g { assert(p[f] == o[f]); } } }
    else { assert(o_find(p, k) == o.len()) by { let f = o_find(p, k); if f < o.len() { assert(p[f] == o[f]); } } }
    assert(o_set(p, k, w) =~= o_set(o, k, w));
}

// ---- numbers and JSON text -----------------------------------------------------------------------
pub open spec fn i_ok(i: int) -> bool { i64::MIN <= i <= u64::MAX }
pub open spec fn dv_ok(d: DV) -> bool decreases d {
    match d { DV::Int(i) => i_ok(i), DV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> dv_ok(#[trigger] a[i]),
        DV::Obj(o) => o_distinct(o) && forall|i: int| 0 <= i < o.len() ==> dv_ok((#[trigger] o[i]).1), _ => true }
}
pub uninterp spec fn f_stable(f: F32) -> bool;
// every float prints as a text that serde_json reads as the same float
pub open spec fn dv_stable(d: DV) -> bool decreases d {
    match d { DV::Flt(f) => f_stable(f), DV::Arr(a) => forall|i: int| 0 <= i < a.len() ==> dv_stable(#[trigger] a[i]),
        DV::Obj(o) => forall|i: int| 0 <= i < o.len() ==> dv_stable((#[trigger] o[i]).1), _ => true }
}
pub uninterp spec fn jstr(s: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn jflt(f: F32) -> Seq<u8>;
pub open spec fn jint(i: int) -> Seq<u8> { if i < 0 { seq![45u8] + dec_digits((-i) as nat) } else { dec_digits(i as nat) } }
pub uninterp spec fn jparse(s: Seq<u8>) -> Option<DV>;
pub uninterp spec fn jpretty(d: DV) -> Seq<u8>;
// the compact JSON text, fields in order
pub open spec fn jsn(d: DV) -> Seq<u8> decreases d, 1int {
    match d {
        DV::Null => seq![110u8, 117u8, 108u8, 108u8],
        DV::Bool(b) => if b { seq![116u8, 114u8, 117u8, 101u8] } else { seq![102u8, 97u8, 108u8, 115u8, 101u8] },
        DV::Int(i) => jint(i),
        DV::Flt(f) => jflt(f),
        DV::Str(s) => jstr(s),
        DV::Arr(a) => seq![91u8] + joined(jsnl(d), seq![44u8]) + seq![93u8],
        DV::Obj(o) => seq![123u8] + joined(jsnl(d), seq![44u8]) + seq![125u8],
    }
}
pub open spec fn jsnl(d: DV) -> Seq<Seq<u8>> decreases d, 0int {
    match d { DV::Arr(a) => Seq::new(a.len(), |i: int| if 0 <= i < a.len() { jsn(a[i]) } else { seq![] }),
        DV::Obj(o) => Seq::new(o.len(), |i: int| if 0 <= i < o.len() { jstr(o[i].0) + seq![58u8] + jsn(o[i].1) } else { seq![] }), _ => seq![] }
}
pub open spec fn jsns(a: Seq<DV>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| jsn(a[i])) }
pub open spec fn jsno(o: DObj) -> Seq<Seq<u8>> { Seq::new(o.len(), |i: int| jstr(o[i].0) + seq![58u8] + jsn(o[i].1)) }
pub proof fn l_jsn_arr(a: Seq<DV>) ensures jsn(DV::Arr(a)) == seq![91u8] + joined(jsns(a), seq![44u8]) + seq![93u8]
{ assert(jsnl(DV::Arr(a)) =~= jsns(a)); }
pub proof fn l_jsn_obj(o: DObj) ensures jsn(DV::Obj(o)) == seq![123u8] + joined(jsno(o), seq![44u8]) + seq![125u8]
{ assert(jsnl(DV::Obj(o)) =~= jsno(o)); }
// serde_json reads back what it wrote, and only produces values of its own number ranges
pub broadcast axiom fn ax_jparse_ok(s: Seq<u8>) ensures (#[trigger] jparse(s)).is_some() ==> dv_ok(jparse(s)->Some_0);
pub broadcast axiom fn ax_jparse_jsn(d: DV) requires dv_ok(d), dv_stable(d) ensures jparse(#[trigger] jsn(d)) == Some(d);
pub broadcast axiom fn ax_json_utf8(d: DV) ensures valid_utf8(#[trigger] jsn(d));

pub trait VJson { spec fn jok(&self) -> bool; spec fn jtx(&self) -> Seq<u8>; fn vjson(&self) -> (r: Str) requires self.jok() ensures r@ == self.jtx(); }
impl VJson for bool { open spec fn jok(&self) -> bool { true } open spec fn jtx(&self) -> Seq<u8> { jsn(DV::Bool(*self)) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
impl VJson for F32 { open spec fn jok(&self) -> bool { true } open spec fn jtx(&self) -> Seq<u8> { jflt(*self) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
// json!(i128) panics outside the i64 / u64 ranges
impl VJson for i128 { open spec fn jok(&self) -> bool { i_ok(*self as int) } open spec fn jtx(&self) -> Seq<u8> { jint(*self as int) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
impl VJson for i64 { open spec fn jok(&self) -> bool { true } open spec fn jtx(&self) -> Seq<u8> { jint(*self as int) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
impl VJson for u64 { open spec fn jok(&self) -> bool { true } open spec fn jtx(&self) -> Seq<u8> { jint(*self as int) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
impl VJson for Str { open spec fn jok(&self) -> bool { true } open spec fn jtx(&self) -> Seq<u8> { jstr(self@) } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }
impl<T: VJson + ?Sized> VJson for &T { open spec fn jok(&self) -> bool { (**self).jok() } open spec fn jtx(&self) -> Seq<u8> { (**self).jtx() } #[verifier::external_body] fn vjson(&self) -> (r: Str) { unimplemented!() } }

// ---- overloads ---------------------------------------------------------------------------------------
// `Value::from(x)` / `dat!(x)`: the impls of data.rs are verified as Value::from_<type>; this only selects one
pub trait VDat: Sized { spec fn dvv(&self) -> DV; fn vdat(self) -> (r: crate::data::Value) ensures vw(r) == self.dvv(); }
pub uninterp spec fn f_wide(f: F32) -> F32;
impl VF32 for F32 { uninterp spec fn fi(&self) -> int; #[verifier::external_body] fn vf32(self) -> (r: F32) { unimplemented!() } }
impl VDat for i8 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_i8(self) } }
impl VDat for i16 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_i16(self) } }
impl VDat for i32 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_i32(self) } }
impl VDat for i64 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_i64(self) } }
impl VDat for u8 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_u8(self) } }
impl VDat for u16 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_u16(self) } }
impl VDat for u32 { open spec fn dvv(&self) -> DV { DV::Int(*self as int) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_u32(self) } }
impl VDat for F32 { open spec fn dvv(&self) -> DV { DV::Flt(*self) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_f64(self) } }
// from(&str); from(&String) is verified against the same contract
impl<'a> VDat for &'a Str { open spec fn dvv(&self) -> DV { DV::Str(self@) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_ref_str(self) } }
impl<'a> VDat for &'a [crate::data::Value] { open spec fn dvv(&self) -> DV { DV::Arr(vws(self@)) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_ref__Value_(self) } }
impl<'a> VDat for &'a IndexMap<Str, crate::data::Value> { open spec fn dvv(&self) -> DV { DV::Obj(self@) } fn vdat(self) -> (r: crate::data::Value) { proof { l_ord(); } crate::data::Value::from_ref_IndexMap_String_Value_(self) } }
impl<'a> VDat for &'a extd::serde_json::Value { open spec fn dvv(&self) -> DV { jw(**self) } fn vdat(self) -> (r: crate::data::Value) decreases jw(*self), 1int { proof { l_ord(); } crate::data::Value::from_ref_JsonValue(self) } }
impl VDat for crate::data::Value { open spec fn dvv(&self) -> DV { vw(*self) } fn vdat(self) -> (r: crate::data::Value) { self } }
pub trait VNum: Sized { spec fn nvv(&self) -> DV; fn vnum(self) -> (r: crate::data::Number) ensures r.nv() == self.nvv(); }
impl VNum for i64 { open spec fn nvv(&self) -> DV { DV::Int(*self as int) } fn vnum(self) -> (r: crate::data::Number) { proof { l_ord(); } crate::data::Number::from_i64(self) } }
impl VNum for u64 { open spec fn nvv(&self) -> DV { DV::Int(*self as int) } fn vnum(self) -> (r: crate::data::Number) { proof { l_ord(); } crate::data::Number::from_u64(self) } }
impl VNum for F32 { open spec fn nvv(&self) -> DV { DV::Flt(*self) } fn vnum(self) -> (r: crate::data::Number) { proof { l_ord(); } crate::data::Number::from_f64(self) } }

impl VInto<i128> for i64 { open spec fn into_ok(&self, r: i128) -> bool { r as int == *self as int } fn vinto(self) -> (r: i128) { proof { l_ord(); } self as i128 } }
impl VInto<i128> for u64 { open spec fn into_ok(&self, r: i128) -> bool { r as int == *self as int } fn vinto(self) -> (r: i128) { proof { l_ord(); } self as i128 } }
impl VTryInto<i64> for i128 { open spec fn fits(&self) -> bool { i64::MIN <= *self <= i64::MAX } open spec fn conv(&self) -> i64 { *self as i64 } #[verifier::external_body] fn vtry_into(self) -> (r: Result<i64>) { unimplemented!() } }
impl VTryInto<u64> for i128 { open spec fn fits(&self) -> bool { 0 <= *self <= u64::MAX } open spec fn conv(&self) -> u64 { *self as u64 } #[verifier::external_body] fn vtry_into(self) -> (r: Result<u64>) { unimplemented!() } }
impl VTryInto<i64> for u128 { open spec fn fits(&self) -> bool { *self <= i64::MAX } open spec fn conv(&self) -> i64 { *self as i64 } #[verifier::external_body] fn vtry_into(self) -> (r: Result<i64>) { unimplemented!() } }
impl VTryInto<u32> for i64 { open spec fn fits(&self) -> bool { 0 <= *self <= u32::MAX } open spec fn conv(&self) -> u32 { *self as u32 } #[verifier::external_body] fn vtry_into(self) -> (r: Result<u32>) { unimplemented!() } }
impl VTryInto<i32> for i64 { open spec fn fits(&self) -> bool { i32::MIN <= *self <= i32::MAX } open spec fn conv(&self) -> i32 { *self as i32 } #[verifier::external_body] fn vtry_into(self) -> (r: Result<i32>) { unimplemented!() } }

// ---- indexing -------------------------------------------------------------------------------------------
pub trait VIx<I> { type Out; spec fn ix_ok(&self, i: I) -> bool; spec fn ix_is(&self, i: I, o: &Self::Out) -> bool;
    fn vix(&self, i: I) -> (r: &Self::Out) requires self.ix_ok(i) ensures self.ix_is(i, r); }
impl<T> VIx<usize> for Vec<T> { type Out = T; open spec fn ix_ok(&self, i: usize) -> bool { i < self@.len() } open spec fn ix_is(&self, i: usize, o: &T) -> bool { *o == self@[i as int] }
    #[verifier::external_body] fn vix(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<T> VIx<usize> for [T] { type Out = T; open spec fn ix_ok(&self, i: usize) -> bool { i < self@.len() } open spec fn ix_is(&self, i: usize, o: &T) -> bool { *o == self@[i as int] }
    #[verifier::external_body] fn vix(&self, i: usize) -> (r: &T) { unimplemented!() } }
// impl Index<&str> / Index<usize> for Value (data.rs)
impl<'b> VIx<&'b Str> for crate::data::Value { type Out = crate::data::Value;
    open spec fn ix_ok(&self, i: &'b Str) -> bool { d_has(vw(*self), i@) }
    open spec fn ix_is(&self, i: &'b Str, o: &crate::data::Value) -> bool { vw(*o) == d_get(vw(*self), i@) }
    fn vix(&self, i: &'b Str) -> (r: &crate::data::Value) { proof { l_ord(); } self.index_ref_str(i) } }
impl VIx<usize> for crate::data::Value { type Out = crate::data::Value;
    open spec fn ix_ok(&self, i: usize) -> bool { (vw(*self) is Arr && i < vw(*self)->Arr_0.len()) || (vw(*self) is Obj && i < vw(*self)->Obj_0.len()) }
    open spec fn ix_is(&self, i: usize, o: &crate::data::Value) -> bool { vw(*o) == (if vw(*self) is Arr { vw(*self)->Arr_0[i as int] } else { vw(*self)->Obj_0[i as int].1 }) }
    fn vix(&self, i: usize) -> (r: &crate::data::Value) { proof { l_ord(); } self.index_usize(i) } }
impl crate::data::Value {
    pub fn vixm(&mut self, k: &Str) -> (r: &mut crate::data::Value)
        requires vw(*old(self)) is Obj
        ensures vw(*final(self)) == d_set(vw(*old(self)), k@, vw(*final(r)))
    { self.index_mut_ref_str(k) }
}
pub trait VGetMut<T> { spec fn gmv(&self) -> Seq<T>; fn vget_mut(&mut self, i: usize) -> (r: Option<&mut T>)
    ensures (i < old(self).gmv().len()) == r.is_some(), r.is_none() ==> final(self).gmv() == old(self).gmv(),
        r.is_some() ==> *(r->0) == old(self).gmv()[i as int] && final(self).gmv() == old(self).gmv().update(i as int, *final(r->0)); }
impl<T> VGetMut<T> for Vec<T> { open spec fn gmv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vget_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() } }

// (names the instances above, so that the verifier orders their definitions before the code that uses them)
pub proof fn l_ord()
    ensures forall|x: i64| #[trigger] x.nvv() == DV::Int(x as int), forall|x: u64| #[trigger] x.nvv() == DV::Int(x as int), forall|x: F32| #[trigger] x.nvv() == DV::Flt(x),
        forall|x: i8| #[trigger] x.dvv() == DV::Int(x as int), forall|x: i16| #[trigger] x.dvv() == DV::Int(x as int), forall|x: i32| #[trigger] x.dvv() == DV::Int(x as int),
        forall|x: i64| #[trigger] x.dvv() == DV::Int(x as int), forall|x: u8| #[trigger] x.dvv() == DV::Int(x as int), forall|x: u16| #[trigger] x.dvv() == DV::Int(x as int), forall|x: u32| #[trigger] x.dvv() == DV::Int(x as int),
        forall|x: F32| #[trigger] x.dvv() == DV::Flt(x), forall|x: &Str| #[trigger] x.dvv() == DV::Str(x@), forall|x: &[crate::data::Value]| #[trigger] x.dvv() == DV::Arr(vws(x@)),
        forall|x: &IndexMap<Str, crate::data::Value>| #[trigger] x.dvv() == DV::Obj(x@), forall|x: &extd::serde_json::Value| #[trigger] x.dvv() == jw(*x),
        forall|x: i64, r: i128| #[trigger] x.into_ok(r) == (r as int == x as int), forall|x: u64, r: i128| #[trigger] x.into_ok(r) == (r as int == x as int),
        forall|x: IndexMap<Str, crate::data::Value>, i: &Str| #[trigger] x.ix_ok(i) == o_has(x@, i@), forall|x: IndexMap<Str, crate::data::Value>, i: &Str, o: &crate::data::Value| #[trigger] x.ix_is(i, o) == (vw(*o) == o_get(x@, i@)),
        forall|x: crate::data::Value, i: &Str| #[trigger] x.ix_ok(i) == d_has(vw(x), i@), forall|x: crate::data::Value, i: &Str, o: &crate::data::Value| #[trigger] x.ix_is(i, o) == (vw(*o) == d_get(vw(x), i@)),
{}

// ---- C22 --------------------------------------------------------------------------------------------------
// what Value::from(&parsed) holds and to_json writes: reading it back gives the same tree
pub proof fn thm_json_roundtrip(text: Seq<u8>)
    requires jparse(text).is_some(), dv_stable(jparse(text)->Some_0)
    ensures jparse(jsn(jparse(text)->Some_0)) == jparse(text)
{ ax_jparse_ok(text); ax_jparse_jsn(jparse(text)->Some_0); }
