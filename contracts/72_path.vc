@struct pathing::pather::Pather

@matterimpl pathing::pather::Pather
@impl pathing::pather::Pather as Bext

@fn pathing::pather::validate_code(code) -> res
ensures
    res.is_ok() == bx_code(code@),

@fn pathing::pather::pather_from_bext(bext, code) -> res
requires
    bext@.len() < MAXLEN,
ensures
    t_res(res, m_new(code@, bx_raw(bext@))) || !all_b64(bext@), !all_b64(bext@) ==> res.is_err(),
@entry
    broadcast use ax_reb64;
    proof { if all_b64(bext@) { l_bx_paw(bext@); } }

@fn pathing::pather::Pather::new(path, bext, code, raw, qb64b, qb64, qb2) -> res
requires
    path.is_some() ==> p_fits(vw(*path->Some_0)),
    bext.is_some() ==> bext->Some_0@.len() < MAXLEN,
    raw.is_some() ==> raw->Some_0@.len() < MAXLEN,
    qb2.is_some() ==> qb2->Some_0@.len() < MAXLEN,
ensures
    bext.is_some() ==> t_res(res, p_bext(oss(code), bext->Some_0@)),
    bext.is_none() && raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() ==> t_res(res, if path.is_some() { p_new(oss(code), vw(*path->Some_0)) } else { None }),
    bext.is_none() && !(raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none()) ==> t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), code, raw, qb64b, qb64, qb2)),
    res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),
@entry
    proof { thm_typed(bx_ty(), Some(seq![52u8, 65u8]), code, raw, qb64b, qb64, qb2); let c = if code.is_some() { code->Some_0@ } else { seq![52u8, 65u8] }; if bext.is_some() { l_bx_given(c, bext->Some_0@); } if path.is_some() && p_text(vw(*path->Some_0)).is_some() { l_bx_given(c, p_text(vw(*path->Some_0))->Some_0); } }

@fn pathing::pather::Pather::new_with_path(path) -> res
requires
    p_fits(vw(*path)),
ensures
    t_res(res, p_new(None, vw(*path))), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::new_with_bext(bext) -> res
requires
    bext@.len() < MAXLEN,
ensures
    t_res(res, bx_given(seq![52u8, 65u8], bext@)), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::new_with_raw(raw, code) -> res
requires
    raw@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), code, Some(raw), None, None, None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::new_with_qb64b(qb64b) -> res
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, Some(qb64b), None, None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::new_with_qb64(qb64) -> res
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, None, Some(qb64), None)), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::new_with_qb2(qb2) -> res
requires
    qb2@.len() < MAXLEN,
ensures
    t_res(res, t_new(Some(seq![52u8, 65u8]), bx_ty(), None, None, None, None, Some(qb2))), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@fn pathing::pather::Pather::path(self) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()),
ensures
    match p_path(self.mv()) { Some(a) => res.is_ok() && vw(res->Ok_0) == DV::Arr(a), None => res.is_err() },
@entry
    broadcast use {l_vw_arr, ax_str_bnd};
@after bext
    let ghost t = bext@;
    proof { l_bx_wf(self.mv()); l_prefix1(t, 45); assert(ascii(t)) by { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < 0x80 by { assert(t[i] == bx_full(self.mv())[i + bx_cut(self.mv())]); } } }
@loop 0 vars(__v0)
    views($it@) == split_at(t.skip(1), 45), __v0@.len() == $k, forall|i: int| 0 <= i < $k ==> vw(#[trigger] __v0@[i]) == DV::Str($it@[i]@),
@loop 0 before
    proof { assert(t.subrange(1, t.len() as int) =~= t.skip(1)); l_split_len(t.skip(1), 45); }
@loop 0 after
    proof { let p = split_at(t.skip(1), 45); assert(vws(__v0@) =~= p_strs(p)) by { assert forall|i: int| 0 <= i < __v0@.len() implies #[trigger] vws(__v0@)[i] == p_strs(p)[i] by { assert(views($it@)[i] == $it@[i]@); } } assert(p_strs(p)[0] == DV::Str(p[0])); assert(vw(__v0@[0]) == vws(__v0@)[0]); }
@tail
    broadcast use l_vws_empty;

@fn pathing::pather::Pather::root(self, root) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()), t_wf(root.mv(), bx_ty()), m_st(root.mv()),
    p_path(self.mv()).is_some() && p_path(root.mv()).is_some() ==> p_fits(DV::Arr(p_path(root.mv())->Some_0 + p_path(self.mv())->Some_0)),
ensures
    t_res(res, p_root(p_path(self.mv()), p_path(root.mv()))), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@entry
    broadcast use l_vws_add;

@fn pathing::pather::Pather::strip(self, root) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()), t_wf(root.mv(), bx_ty()), m_st(root.mv()),
    p_under(p_path(self.mv()), p_path(root.mv())) == Some(true) ==> p_fits(DV::Arr(p_path(self.mv())->Some_0.skip(p_path(root.mv())->Some_0.len() as int))),
ensures
    t_res(res, p_strip(self.mv(), p_path(root.mv()))), res.is_ok() ==> t_wf(res->Ok_0.mv(), bx_ty()),

@entry
    broadcast use l_vws_sub;

@fn pathing::pather::Pather::starts_with(self, path) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()), t_wf(path.mv(), bx_ty()), m_st(path.mv()),
ensures
    match p_under(p_path(self.mv()), p_path(path.mv())) { Some(b) => res == Ok::<bool, Error>(b), None => res.is_err() },
@entry
    let ghost pm = path.mv();
@after path
    proof { l_vws_pre(path@, root@); l_p_path_strs(self.mv()); l_p_path_strs(pm); }

@fn pathing::pather::Pather::resolve(self, sad) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()),
ensures
    match p_path(self.mv()) { Some(p) => p_is(res, p_res(vw(*sad), p)), None => res.is_err() },

@fn pathing::pather::Pather::tail(self, serder) -> res
requires
    t_wf(self.mv(), bx_ty()), m_st(self.mv()),
ensures
    ({ let p = p_path(self.mv()); let d = if p.is_some() { p_res(serder.sv().ked, p->Some_0) } else { None }; let t = if d.is_some() { p_tail(d->Some_0) } else { None }; res.is_ok() == t.is_some() && (t.is_some() ==> res->Ok_0@ == t->Some_0) }),

@fn pathing::pather::Pather::bextify(path) -> res
ensures
    res.is_ok() == p_text(vw(*path)).is_some(), res.is_ok() ==> res->Ok_0@ == p_text(vw(*path))->Some_0,
@entry
    broadcast use {l_vw_arr, ax_reb64};
    let ghost d0 = vw(*path);
@loop 0 vars(vath)
    vath@.len() == $k, $it@ == refs(path@), vws(path@) == d0->Arr_0, forall|i: int| 0 <= i < $k ==> p_comp_ok(vw(#[trigger] path@[i])) && sb(vath@[i]) == p_comp(vw(path@[i]))->Some_0,
@loop 0 start
    proof { assert(vws(path@)[$k - 1] == vw(path@[$k - 1])); l_comp_bad(d0, $k - 1); }
@loop 0 after
    proof { assert(vath.jv() =~= p_comps(d0->Arr_0)) by { assert forall|i: int| 0 <= i < vath@.len() implies #[trigger] vath.jv()[i] == p_comps(d0->Arr_0)[i] by { assert(vws(path@)[i] == vw(path@[i])); assert(vath.jv()[i] == sb(vath@[i])); } }
        assert(p_comps_ok(d0->Arr_0)) by { assert forall|i: int| 0 <= i < d0->Arr_0.len() implies p_comp_ok(#[trigger] d0->Arr_0[i]) by { assert(vws(path@)[i] == vw(path@[i])); } } }

@fn pathing::pather::Pather::_resolve(val, ptr) -> res
ensures
    vw(*ptr) is Arr ==> p_is(res, p_res(vw(*val), vw(*ptr)->Arr_0)), !(vw(*ptr) is Arr) ==> res.is_err(),
decreases
    if vw(*ptr) is Arr { vw(*ptr)->Arr_0.len() } else { 0 },
@entry
    broadcast use {l_vw_arr};
    let ghost d = vw(*val); let ghost p = vw(*ptr)->Arr_0;
@after idx
    proof { assert(vws(ptr@) =~= p.skip(1)); assert(p[0] == DV::Str(idx@)); }
