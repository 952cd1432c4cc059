@struct cesr::core::tholder::Tholder
impl vstd::std_specs::cmp::PartialEqSpecImpl for Tholder { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Tholder) -> bool { tv_eq(tv(*self), tv(*o)) } }
impl PartialEq for Tholder { #[verifier::external_body] fn eq(&self, o: &Tholder) -> (r: bool) { unimplemented!() } }

@fn cesr::core::tholder::checked_sum(a, b) -> res
ensures
    match q_addc(a.q(), b.q()) { Some(q) => res.is_ok() && res->Ok_0.q() == q, None => res.is_err() },
@entry
    broadcast use ax_r32;
    proof { l_q_addc(a.q(), b.q()); }

@fn cesr::core::tholder::values_to_rationals(value) -> res
ensures
    match w_of(vw(*value)) { Some(cl) => res.is_ok() && rqq(res->Ok_0@) == cl, None => res.is_err() },
@entry
    broadcast use ax_r32;
    let ghost d = vw(*value);
    proof { l_red_one(); }
@loop 0 vars(clauses)
    d is Arr, vws($it@) == d->Arr_0, clauses@.len() == $k,
    forall|i: int| 0 <= i < $k ==> w_clause_ok(#[trigger] d->Arr_0[i]) && rq(clauses@[i]@) == w_clause(d->Arr_0[i]),
@loop 0 start
    let ghost c = d->Arr_0[$k - 1];
    proof { assert(vws($it@)[$k - 1] == c); }
@loop 1 vars(clause)
    c is Arr, vws($it@) == c->Arr_0, clause@.len() == $k,
    forall|i: int| 0 <= i < $k ==> w_w(#[trigger] c->Arr_0[i]).is_some() && clause@[i].q() == w_w(c->Arr_0[i])->Some_0,
@loop 1 start
    let ghost x = c->Arr_0[$k - 1];
    proof { assert(vws($it@)[$k - 1] == x); if x is Str { l_split_len(x->Str_0, 47); } }
@loop 1 after
    proof { assert(rq(clause@) =~= w_clause(c)); }
@loop 2
    w_all_ok(d), rqq(clauses@) == w_all(d), $it@ == refs(clauses@),
    forall|i: int| 0 <= i < $k ==> w_full(#[trigger] w_all(d)[i]),
@loop 2 before
    proof { assert(rqq(clauses@) =~= w_all(d)); }
@loop 2 start
    let ghost w = w_all(d)[$k - 1];
    proof { assert(rq(clauses@[$k - 1]@) == rqq(clauses@)[$k - 1]); assert(w.take(0) =~= Seq::<Q>::empty()); }
@loop 3 vars(sum)
    rq(clauses@[__k2 - 1]@) == w, $it@ == refs(clauses@[__k2 - 1]@), w_sum(w.take($k as int)) == Some(sum.q()),
@loop 3 start
    proof { assert(w.take($k as int).drop_last() =~= w.take($k - 1)); assert(w[$k - 1] == clauses@[__k2 - 1]@[$k - 1].q()); if w_sum(w.take($k as int)).is_none() { l_sum_none(w, $k as int); assert(!w_full(w_all(d)[__k2 - 1])); } }
@loop 3 after
    proof { assert(w.take(w.len() as int) =~= w); assert(w_full(w_all(d)[__k2 - 1]) == (sum.q().n >= sum.q().d)); }

@fn cesr::core::tholder::rationals_to_bext(clauses) -> res
ensures
    res@ == w_txt(rqq(clauses@)),
@entry
    broadcast use ax_r32;
@loop 0 vars(envelope)
    $it@ == refs(clauses@), envelope@.len() == $k, forall|i: int| 0 <= i < $k ==> sb(#[trigger] envelope@[i]) == w_ctxt(rq(clauses@[i]@)),
@loop 1 vars(text_clause)
    $it@ == refs(clauses@[__k0 - 1]@), text_clause@.len() == $k, forall|i: int| 0 <= i < $k ==> sb(#[trigger] text_clause@[i]) == q_txt(clauses@[__k0 - 1]@[i].q()),
@loop 1 after
    proof { assert(text_clause.jv() =~= w_ctxts(rq(clauses@[__k0 - 1]@))); }
@loop 0 after
    proof { assert(envelope.jv() =~= w_txts(rqq(clauses@))); }

@fn cesr::core::tholder::Tholder::thold(self) -> res
ensures
    vw(res) == tv(*self).thold,

@fn cesr::core::tholder::Tholder::weighted(self) -> res
ensures
    res == tv(*self).weighted,

@fn cesr::core::tholder::Tholder::size(self) -> res
ensures
    res as int == tv(*self).size,

@fn cesr::core::tholder::Tholder::num(self) -> res
requires
    th_wf(tv(*self)),
ensures
    res.is_ok(), match res->Ok_0 { Some(n) => !tv(*self).weighted && n as int == tv(*self).size, None => tv(*self).weighted },

@fn cesr::core::tholder::Tholder::number(self) -> res
ensures
    res == self.number,

@fn cesr::core::tholder::Tholder::bexter(self) -> res
ensures
    res == self.bexter,

@fn cesr::core::tholder::Tholder::limen(self) -> res
requires
    th_wf(tv(*self)),
ensures
    res.is_ok(), res->Ok_0@ == th_limen_of(tv(*self)),
@entry
    proof { if !self.weighted { l_n_new(self.size as int); l_n_ty(n_mv(self.size as int)); } }

@fn cesr::core::tholder::Tholder::sith(self) -> res
requires
    th_wf(tv(*self)),
ensures
    res.is_ok(), vw(res->Ok_0) == th_sith_of(tv(*self)),

@fn cesr::core::tholder::Tholder::to_json(self) -> res
requires
    th_wf(tv(*self)),
ensures
    res.is_ok(), res->Ok_0@ == jsn(th_sith_of(tv(*self))),

@fn cesr::core::tholder::Tholder::satisfy(self, indices) -> res
requires
    th_wf(tv(*self)),
ensures
    match th_sat(tv(*self), indices@) { Some(b) => res == Ok::<bool, Error>(b), None => res.is_err() },

@fn cesr::core::tholder::Tholder::satisfy_numeric(self, indices) -> res
requires
    th_wf(tv(*self)), !self.weighted,
ensures
    match th_sat(tv(*self), indices@) { Some(b) => res == Ok::<bool, Error>(b), None => res.is_err() },
@entry
    proof { assert forall|b: Seq<u32>| sorted_u32(b) && #[trigger] b.to_multiset() == indices@.to_multiset() implies dedup(b).len() == indices@.to_set().len() by { l_indices(indices@, b); } }

@fn cesr::core::tholder::Tholder::satisfy_weighted(self, indices) -> res
requires
    th_wf(tv(*self)), self.weighted,
ensures
    match th_sat(tv(*self), indices@) { Some(b) => res == Ok::<bool, Error>(b), None => res.is_err() },
@entry
    broadcast use ax_r32;
    let ghost idx = indices@; let ghost cl = w_of(vw(self.thold))->Some_0;
    proof { l_red_one(); l_w_of(vw(self.thold)); assert forall|b: Seq<u32>| sorted_u32(b) && #[trigger] b.to_multiset() == indices@.to_multiset() implies same_hits(dedup(b), indices@) by { l_indices(indices@, b); } }
@loop 0 vars(sats)
    same_hits($it@, idx), sats@.len() == self.size, sats_are(sats@, $it@.take($k as int)),
@loop 0 before
    proof { l_sats_start(self.size as int); assert(sats@ =~= rept(false, self.size as int)); assert($it@.take(0) =~= Seq::<u32>::empty()); }
@loop 0 start
    let ghost s0 = sats@;
@loop 0 end
    proof { l_sats_step(s0, sats@, $it@, $k - 1); }
@loop 0 after
    proof { assert($it@.take($it@.len() as int) =~= $it@); l_sats_at(sats@, $it@, idx); assert(cl.take(0) =~= Seq::<Seq<Q>>::empty()); }
@loop 1 vars(wio)
    sats_are(sats@, idx), sats@.len() == self.size,
    rqq($it@) == cl, wio == w_tot(cl.take($k as int)), w_sat(cl.take($k as int), idx) == Some(true),
@loop 1 start
    let ghost w = cl[$k - 1]; let ghost off = wio as int;
    proof { assert(rq($it@[$k - 1]@) == rqq($it@)[$k - 1]); assert(w.take(0) =~= Seq::<Q>::empty()); l_tot_mono(cl, $k - 1); assert(cl.take($k as int).drop_last() =~= cl.take($k - 1)); }
@loop 2 vars(cw, wio)
    rq($it@) == w, wio == off + $k, w_part(w.take($k as int), off, idx) == Some(cw.q()),
@loop 2 start
    proof { l_sats_get(sats@, idx, wio as int); assert(w.take($k as int).drop_last() =~= w.take($k - 1)); assert(w[$k - 1] == $it@[$k - 1].q()); if w_part(w.take($k as int), off, idx).is_none() { l_part_none(w, off, idx, $k as int); l_sat_stop(cl, idx, __k1 as int); } }
@loop 2 after
    proof { assert(w.take(w.len() as int) =~= w); if cw.q().n < cw.q().d { l_sat_stop(cl, idx, __k1 as int); } }
@loop 1 after
    proof { assert(cl.take(cl.len() as int) =~= cl); }

@fn cesr::core::tholder::Tholder::process_unweighted(self, thold) -> res
ensures
    match th_num(thold as int) { Some(v) => res.is_ok() && tv(*final(self)) == v, None => res.is_err() },

@fn cesr::core::tholder::Tholder::process_weighted(self, thold) -> res
requires
    w_fits(vw(*thold)),
ensures
    match th_w(vw(*thold)) { Some(v) => res.is_ok() && tv(*final(self)) == v, None => res.is_err() },
@entry
    broadcast use {ax_r32, l_vw_arr};
    let ghost cl = w_of(vw(*thold))->Some_0;
    proof { l_th_w(vw(*thold)); }
@loop 0 vars(size)
    $it@ == refs(threshold@), rqq(threshold@) == cl, cl_ok(cl), w_tot(cl) <= W_MAX, size as int == w_tot(cl.take($k as int)),
@loop 0 start
    proof { assert(rq(threshold@[$k - 1]@) == cl[$k - 1]); l_tot_mono(cl, $k - 1); assert(cl.take($k as int).drop_last() =~= cl.take($k - 1)); }
@loop 0 after
    proof { assert(cl.take(cl.len() as int) =~= cl); }
@loop 1 vars(outer)
    $it@ == refs(threshold@), rqq(threshold@) == cl, outer@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] outer@[i]) == w_cdv(cl[i]),
@loop 1 start
    proof { assert(rq(threshold@[$k - 1]@) == cl[$k - 1]); }
@loop 2 vars(inner)
    $it@ == refs(threshold@[__k1 - 1]@), rq(threshold@[__k1 - 1]@) == cl[__k1 - 1], inner@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] inner@[i]) == DV::Str(q_str(cl[__k1 - 1][i])),
@loop 2 start
    proof { assert(cl[__k1 - 1][$k - 1] == threshold@[__k1 - 1]@[$k - 1].q()); }
@loop 2 after
    proof { assert(vws(inner@) =~= w_cdv(cl[__k1 - 1])->Arr_0); }
@loop 1 after
    proof { assert(vws(outer@) =~= w_dv(cl)->Arr_0); }

@fn cesr::core::tholder::Tholder::process_thold(self, thold) -> res
requires
    w_fits(vw(*thold)),
ensures
    match th_thold(vw(*thold)) { Some(v) => res.is_ok() && tv(*final(self)) == v, None => res.is_err() },

@fn cesr::core::tholder::Tholder::process_limen(self, limen) -> res
requires
    limen@.len() <= 0x0200_0000,
ensures
    limen@.len() == 0 ==> res.is_ok() && *final(self) == *old(self),
    limen@.len() > 0 ==> match th_limen(limen@) { Some(v) => res.is_ok() && tv(*final(self)) == v, None => res.is_err() },
@entry
    broadcast use ax_chars_first;
    let ghost l = limen@;
    proof { l_limen(l); }
@loop 0 vars(oclauses)
    views($it@) == split_at(repl(bx_str(bexter.mv()), 115, 47), 97), oclauses@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] oclauses@[i]) == w_rclause($it@[i]@),
@loop 1 vars(oweights)
    views($it@) == split_at(__it0@[__k0 - 1]@, 99), oweights@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] oweights@[i]) == DV::Str($it@[i]@),
@loop 1 after
    proof { assert(vws(oweights@) =~= w_rclause(__it0@[__k0 - 1]@)->Arr_0) by { assert forall|i: int| 0 <= i < oweights@.len() implies vws(oweights@)[i] == w_rclause(__it0@[__k0 - 1]@)->Arr_0[i] by { assert(views($it@)[i] == $it@[i]@); } } }
@loop 0 after
    proof { let t = bx_str(bexter.mv()); assert(vws(oclauses@) =~= w_read(t)->Arr_0) by { assert forall|i: int| 0 <= i < oclauses@.len() implies vws(oclauses@)[i] == w_read(t)->Arr_0[i] by { assert(views($it@)[i] == $it@[i]@); } } l_read_cnt(t); }

@fn cesr::core::tholder::Tholder::process_sith(self, sith) -> res
requires
    th_fits(vw(*sith)),
ensures
    match th_sith(vw(*sith)) { Some(v) => res.is_ok() && tv(*final(self)) == v, None => res.is_err() },
@entry
    broadcast use {l_vw_arr};
    let ghost d0 = vw(*sith);
@after array
    let ghost e = vw(sith);
    proof { assert(e is Arr && vws(array@) == e->Arr_0); assert(th_sith(d0) == th_arr(e)); assert(w_fits(e)); l_th_arr(e); }
@loop 0 vars(__v0)
    $it@ == refs(array@), __v0 == (forall|i: int| 0 <= i < $k ==> vw(#[trigger] array@[i]) is Arr),
@loop 0 after
    proof { l_th_arr_w(e, array@, __v0); }
@loop 1 vars(sith)
    vw(sith) == d2, d2 is Arr, vws($it@) == d2->Arr_0, w_of(d2).is_none() ==> th_sith(d0).is_none(),
@loop 1 before
    let ghost d2 = vw(sith);
    proof { assert(vws($it@) == d2->Arr_0); assert(d2->Arr_0 == seq![e] || d2 == e); assert(th_arr(e) == th_w(d2)); }
@loop 1 start
    proof { assert(vws($it@)[$k - 1] == d2->Arr_0[$k - 1]); if !(d2->Arr_0[$k - 1] is Arr) { l_w_bad(d2, $k - 1); } }
@loop 2
    vw(clause) == d2->Arr_0[__k1 - 1], vw(clause) is Arr, vws($it@) == vw(clause)->Arr_0,
@loop 2 start
    proof { assert(vws($it@)[$k - 1] == d2->Arr_0[__k1 - 1]->Arr_0[$k - 1]); if !(d2->Arr_0[__k1 - 1]->Arr_0[$k - 1] is Str) { l_w_bad2(d2, __k1 - 1, $k - 1); } }

@fn cesr::core::tholder::Tholder::new(thold, limen, sith) -> res
requires
    thold.is_some() ==> w_fits(vw(*thold->Some_0)), limen.is_some() ==> limen->Some_0@.len() <= 0x0200_0000, sith.is_some() ==> th_fits(vw(*sith->Some_0)),
ensures
    match th_new(odv(thold), osq(limen), odv(sith)) { Some(v) => res.is_ok() && tv(res->Ok_0) == v && th_wf(v), None => res.is_err() },
@entry
    broadcast use ax_dv_eq;
    proof { if thold.is_some() { l_th_thold(vw(*thold->Some_0)); } if limen.is_some() { l_limen(limen->Some_0@); } if sith.is_some() { l_th_sith(vw(*sith->Some_0)); } }

@fn cesr::core::tholder::Tholder::new_with_thold(thold) -> res
requires
    w_fits(vw(*thold)),
ensures
    match th_thold(vw(*thold)) { Some(v) => res.is_ok() && tv(res->Ok_0) == v && th_wf(v), None => res.is_err() },

@fn cesr::core::tholder::Tholder::new_with_limen(limen) -> res
requires
    limen@.len() <= 0x0200_0000,
ensures
    match th_limen(limen@) { Some(v) => res.is_ok() && tv(res->Ok_0) == v && th_wf(v), None => res.is_err() },

@fn cesr::core::tholder::Tholder::new_with_sith(sith) -> res
requires
    th_fits(vw(*sith)),
ensures
    match th_sith(vw(*sith)) { Some(v) => res.is_ok() && tv(res->Ok_0) == v && th_wf(v), None => res.is_err() },
