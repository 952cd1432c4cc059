@struct data::Number
impl Number {
    #[verifier::type_invariant]
    closed spec fn nwf(self) -> bool { i64::MIN <= self.i <= u64::MAX }
    pub closed spec fn nv(&self) -> DV { if self.float { DV::Flt(self.f) } else { DV::Int(self.i as int) } }
    pub proof fn l_nv(&self) ensures self.nv() is Int || self.nv() is Flt {}
}

@struct data::Value

@fn data::Number::from_f64(f) -> res
ensures
    res.nv() == DV::Flt(f),

@fn data::Number::from_u64(i) -> res
ensures
    res.nv() == DV::Int(i as int),

@fn data::Number::from_i64(i) -> res
ensures
    res.nv() == DV::Int(i as int),

@fn data::Value::to_bool(self) -> res
ensures
    res.is_ok() == (vw(*self) is Bool), res.is_ok() ==> vw(*self) == DV::Bool(res->Ok_0),

@fn data::Value::to_string(self) -> res
ensures
    res.is_ok() == (vw(*self) is Str), res.is_ok() ==> vw(*self) == DV::Str(res->Ok_0@),

@fn data::Value::to_i64(self) -> res
ensures
    res.is_ok() == (vw(*self) is Int && i64::MIN <= vw(*self)->Int_0 <= i64::MAX), res.is_ok() ==> vw(*self) == DV::Int(res->Ok_0 as int),

@fn data::Value::to_f64(self) -> res
ensures
    res.is_ok() == (vw(*self) is Flt), res.is_ok() ==> vw(*self) == DV::Flt(res->Ok_0),

@fn data::Value::to_vec(self) -> res
ensures
    res.is_ok() == (vw(*self) is Arr), res.is_ok() ==> vw(*self) == DV::Arr(vws(res->Ok_0@)),
@entry
    broadcast use {l_vw_arr};

@fn data::Value::to_map(self) -> res
ensures
    res.is_ok() == (vw(*self) is Obj), res.is_ok() ==> vw(*self) == DV::Obj(res->Ok_0@),

@fn data::Value::to_json(self) -> res
ensures
    res.is_ok(), res->Ok_0@ == jsn(vw(*self)),
decreases
    vw(*self),
@entry
    broadcast use {l_vw_arr, ax_im_items};
    match self { crate::data::Value::Number(n) => { proof { use_type_invariant(n); } } _ => {} }
    proof { match vw(*self) { DV::Arr(a) => { l_jsn_arr(a); } DV::Obj(o) => { l_jsn_obj(o); } _ => {} } }
@loop 0 vars(v)
    v@.len() == $k, forall|i: int| 0 <= i < $k ==> sb(#[trigger] v@[i]) == jsn(vw(a@[i])),
@loop 0 start
    proof { let q = vws(a@); assert(q[$k - 1] == vw(a@[$k - 1])); assert(decreases_to!(DV::Arr(q) => q)); assert(decreases_to!(q => q[$k - 1])); }
@loop 0 after
    proof { assert(v.jv() =~= jsns(vws(a@))); }
@loop 1 vars(v)
    v@.len() == $k, forall|i: int| 0 <= i < $k ==> sb(#[trigger] v@[i]) == jstr(o@[i].0) + seq![58u8] + jsn(o@[i].1),
@loop 1 after
    proof { assert(v.jv() =~= jsno(o@)); }

@fn data::Value::from_i8(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_i16(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_i32(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_i64(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_u8(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_u16(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_u32(i) -> res
ensures
    vw(res) == DV::Int(i as int),

@fn data::Value::from_f64(x) -> res
ensures
    vw(res) == DV::Flt(x),

@fn data::Value::from_ref_str(s) -> res
ensures
    vw(res) == DV::Str(s@),

@fn data::Value::from_ref_String(s) -> res
ensures
    vw(res) == DV::Str(s@),

@fn data::Value::from_ref__Value_(a) -> res
ensures
    vw(res) == DV::Arr(vws(a@)),
@entry
    broadcast use {l_vw_arr};

@fn data::Value::from_ref_IndexMap_String_Value_(m) -> res
ensures
    vw(res) == DV::Obj(m@),

@fn data::Value::from_ref_JsonValue(v) -> res
ensures
    vw(res) == jw(*v),
decreases
    jw(*v), 0int,
@entry
    broadcast use {l_vw_arr, l_jw_arr, ax_jm_items, ax_jnum, ax_map};
    let ghost v0 = v;
    proof { l_ord(); }
    proof { match v { ext::serde_json::Value::Array(a) => { l_jw_arr(*a); } ext::serde_json::Value::Object(o) => { assert(o@.take(o@.len() as int) =~= o@); } _ => {} } }
@loop 0 vars(v)
    v@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] v@[i]) == jw(a@[i]),
@loop 0 start
    proof { l_jw_arr(*a); let q = jws(a@); assert(q[$k - 1] == jw(a@[$k - 1])); let d = jw(*v0); assert(d->Arr_0 == q); assert(decreases_to!(d => d->Arr_0)); assert(decreases_to!(q => q[$k - 1])); }
@loop 0 after
    proof { assert(vws(v@) =~= jws(a@)); }
@loop 1 vars(m)
    m@ =~= o@.take($k as int),
@loop 1 start
    proof { let q = o@; let d = jw(*v0); assert(d->Obj_0 == q); assert(decreases_to!(d => d->Obj_0)); assert(decreases_to!(q => q[$k - 1])); assert(decreases_to!(q[$k - 1] => q[$k - 1].1)); }
@loop 1 end
    proof { let q = o@.take($k - 1); l_o_find(q, o@[$k - 1].0); assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).0 != o@[$k - 1].0 by { assert(q[j] == o@[j]); } }

@fn data::Value::index_usize(self, i) -> res
requires
    (vw(*self) is Arr && i < vw(*self)->Arr_0.len()) || (vw(*self) is Obj && i < vw(*self)->Obj_0.len()),
ensures
    vw(*res) == (if vw(*self) is Arr { vw(*self)->Arr_0[i as int] } else { vw(*self)->Obj_0[i as int].1 }),
@entry
    broadcast use {l_vw_arr};

@fn data::Value::index_ref_str(self, i) -> res
requires
    d_has(vw(*self), i@),
ensures
    vw(*res) == d_get(vw(*self), i@),
@entry
    broadcast use {l_vw_arr};
    proof { l_ord(); }

@fn data::Value::index_mut_ref_str(self, i) -> res
requires
    vw(*old(self)) is Obj,
ensures
    vw(*final(self)) == d_set(vw(*old(self)), i@, vw(*final(res))),
@entry
    broadcast use {l_vw_arr};
    proof { let o = vw(*self)->Obj_0; l_o_set(o, i@, DV::Null, i@); assert forall|w: DV| #[trigger] o_set(o_set(o, i@, DV::Null), i@, w) == o_set(o, i@, w) by { l_o_set2(o, i@, DV::Null, w); } }
