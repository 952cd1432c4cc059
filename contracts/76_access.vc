@fn cesr::core::serder::Serder::verfers(self) -> res
ensures
    ({ let d = self.sv().ked; let a = ac_list(d, lab_k());
        res.is_ok() == (d is Obj && ac_all(a, vk_ty())) && (res.is_ok() ==> res->Ok_0@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> Some((#[trigger] res->Ok_0@[i]).mv()) == ac_one(a[i], vk_ty())) }),
@entry
    broadcast use l_vw_arr;
    let ghost a = ac_list(self.sv().ked, lab_k());
@loop 0 vars(result)
    result@.len() == $k, vws($it@) == a, forall|i: int| 0 <= i < $k ==> Some((#[trigger] result@[i]).mv()) == ac_one(a[i], vk_ty()), forall|i: int| 0 <= i < $k ==> ac_one(#[trigger] a[i], vk_ty()).is_some(),
@loop 0 start
    proof { assert(vws($it@)[$k - 1] == vw($it@[$k - 1])); }

@fn cesr::core::serder::Serder::digers(self) -> res
ensures
    ({ let d = self.sv().ked; let a = ac_list(d, lab_n());
        res.is_ok() == (d is Obj && ac_all(a, dg_ty())) && (res.is_ok() ==> res->Ok_0@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> Some((#[trigger] res->Ok_0@[i]).mv()) == ac_one(a[i], dg_ty())) }),
@entry
    broadcast use l_vw_arr;
    let ghost a = ac_list(self.sv().ked, lab_n());
@loop 0 vars(result)
    result@.len() == $k, vws($it@) == a, forall|i: int| 0 <= i < $k ==> Some((#[trigger] result@[i]).mv()) == ac_one(a[i], dg_ty()), forall|i: int| 0 <= i < $k ==> ac_one(#[trigger] a[i], dg_ty()).is_some(),
@loop 0 start
    proof { assert(vws($it@)[$k - 1] == vw($it@[$k - 1])); }

@fn cesr::core::serder::Serder::werfers(self) -> res
ensures
    ({ let d = self.sv().ked; let a = ac_list(d, lab_b());
        res.is_ok() == (d is Obj && (d_has(d, lab_b()) ==> ac_has(d, lab_b())) && ac_all(a, vk_ty())) && (res.is_ok() ==> res->Ok_0@.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> Some((#[trigger] res->Ok_0@[i]).mv()) == ac_one(a[i], vk_ty())) }),
@entry
    broadcast use l_vw_arr;
    let ghost a = ac_list(self.sv().ked, lab_b());
@loop 0 vars(result)
    result@.len() == $k, vws($it@) == a, forall|i: int| 0 <= i < $k ==> Some((#[trigger] result@[i]).mv()) == ac_one(a[i], vk_ty()), forall|i: int| 0 <= i < $k ==> ac_one(#[trigger] a[i], vk_ty()).is_some(),
@loop 0 start
    proof { assert(vws($it@)[$k - 1] == vw($it@[$k - 1])); }

@fn cesr::core::serder::Serder::tholder(self) -> res
requires
    d_has(self.sv().ked, lab_kt()) ==> th_fits(d_get(self.sv().ked, lab_kt())),
ensures
    ({ let d = self.sv().ked; if !(d is Obj) { res.is_err() } else if !d_has(d, lab_kt()) { res.is_ok() && res->Ok_0.is_none() }
        else { match th_sith(d_get(d, lab_kt())) { Some(v) => res.is_ok() && res->Ok_0.is_some() && tv(res->Ok_0->Some_0) == v && th_wf(v), None => res.is_err() } } }),

@fn cesr::core::serder::Serder::ntholder(self) -> res
requires
    d_has(self.sv().ked, lab_nt()) ==> th_fits(d_get(self.sv().ked, lab_nt())),
ensures
    ({ let d = self.sv().ked; if !(d is Obj) { res.is_err() } else if !d_has(d, lab_nt()) { res.is_ok() && res->Ok_0.is_none() }
        else { match th_sith(d_get(d, lab_nt())) { Some(v) => res.is_ok() && res->Ok_0.is_some() && tv(res->Ok_0->Some_0) == v && th_wf(v), None => res.is_err() } } }),

@fn cesr::core::serder::Serder::sner(self) -> res
ensures
    res.is_ok() == ac_sn(self.sv().ked).is_some(), res.is_ok() ==> res->Ok_0.mv() == n_mv(ac_sn(self.sv().ked)->Some_0) && t_wf(res->Ok_0.mv(), n_ty()),

@fn cesr::core::serder::Serder::sn(self) -> res
ensures
    res.is_ok() == ac_sn(self.sv().ked).is_some(), res.is_ok() ==> res->Ok_0 == ac_sn(self.sv().ked)->Some_0,
@entry
    broadcast use {l_p_hex_bounds};
    proof { let g = ac_sn(self.sv().ked); if g.is_some() { l_n_new(g->Some_0); } }

@fn cesr::core::serder::Serder::fner(self) -> res
ensures
    ({ let d = self.sv().ked; if !(d is Obj) { res.is_err() } else if !d_has(d, lab_f()) { res.is_ok() && res->Ok_0.is_none() }
        else { res.is_ok() == ac_fn(d).is_some() && (res.is_ok() ==> res->Ok_0.is_some() && res->Ok_0->Some_0.mv() == ac_fn(d)->Some_0 && t_wf(res->Ok_0->Some_0.mv(), n_ty())) } }),

@fn cesr::core::serder::Serder::_fn(self) -> res
ensures
    res.is_ok() == ac_fn(self.sv().ked).is_some(), res.is_ok() ==> res->Ok_0 == be_int(ac_fn(self.sv().ked)->Some_0.raw),

@fn cesr::core::serder::Serder::pre(self) -> res
ensures
    res.is_ok() == ac_str(self.sv().ked, lab_i()).is_some(), res.is_ok() ==> res->Ok_0@ == ac_str(self.sv().ked, lab_i())->Some_0,

@fn cesr::core::serder::Serder::preb(self) -> res
ensures
    res.is_ok() == ac_str(self.sv().ked, lab_i()).is_some(), res.is_ok() ==> res->Ok_0@ == ac_str(self.sv().ked, lab_i())->Some_0,

@fn cesr::core::serder::Serder::est(self) -> res
ensures
    res.is_ok() == ac_str(self.sv().ked, lab_t()).is_some(), res.is_ok() ==> res->Ok_0 == ac_ilk(ac_str(self.sv().ked, lab_t())->Some_0),

@fn cesr::core::creder::Creder::crd(self) -> res
ensures
    vw(res) == self.sv().ked,

@fn cesr::core::creder::Creder::issuer(self) -> res
ensures
    res.is_ok() == ac_str(self.sv().ked, lab_i()).is_some(), res.is_ok() ==> res->Ok_0@ == ac_str(self.sv().ked, lab_i())->Some_0,

@fn cesr::core::creder::Creder::schema(self) -> res
ensures
    res.is_ok() == ac_str(self.sv().ked, lab_s()).is_some(), res.is_ok() ==> res->Ok_0@ == ac_str(self.sv().ked, lab_s())->Some_0,

@fn cesr::core::creder::Creder::subject(self) -> res
requires
    d_has(self.sv().ked, lab_a()),
ensures
    vw(res) == d_get(self.sv().ked, lab_a()),

@fn cesr::core::creder::Creder::status(self) -> res
ensures
    ({ let d = self.sv().ked; if !(d is Obj) { res.is_err() } else if !d_has(d, lab_ri()) { res.is_ok() && res->Ok_0.is_none() }
        else { res.is_ok() == ac_str(d, lab_ri()).is_some() && (res.is_ok() ==> res->Ok_0.is_some() && res->Ok_0->Some_0@ == ac_str(d, lab_ri())->Some_0) } }),

@fn cesr::core::creder::Creder::chains(self) -> res
ensures
    ({ let d = self.sv().ked; res.is_ok() == d is Obj && (d is Obj ==> vw(res->Ok_0) == if d_has(d, lab_e()) { d_get(d, lab_e()) } else { DV::Obj(Seq::empty()) }) }),
