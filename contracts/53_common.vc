@module cesr::core::common

@struct cesr::core::common::Version
impl vstd::std_specs::cmp::PartialEqSpecImpl for Version { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Version { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }

@struct cesr::core::common::SizeifyResult

@struct cesr::core::common::DeversifyResult

@struct cesr::core::common::SniffResult

@fn cesr::core::common::deversify(vs) -> res
ensures
    match vs_of(vs@) { Some(x) => res.is_ok() && vp_is(x, res->Ok_0.ident@, res->Ok_0.version, res->Ok_0.kind@, res->Ok_0.size as int), None => res.is_err() },
@entry
    broadcast use {ax_rever};
    proof { l_vs_repl(vs@); l_vs_hex(vs@); }

@fn cesr::core::common::sizeify(ked, kind) -> res
requires
    jsn(vw(*ked)).len() <= 0xffff_ffff,
ensures
    match sz_of(vw(*ked), ostr(kind)) {
        Some((raw, d, id)) => res.is_ok() && res->Ok_0.raw@ == raw && vw(res->Ok_0.ked) == d && res->Ok_0.ident@ == id && res->Ok_0.kind@ == t_json() && res->Ok_0.version.major == 1 && res->Ok_0.version.minor == 0,
        None => res.is_err() },
@entry
    broadcast use {ax_rever, ax_json_utf8, l_subsub};
    proof { l_o_set(vw(*ked)->Obj_0, lab_v(), DV::Null, lab_v()); let raw = jsn(vw(*ked)); l_re_first(raw);
        let x = vs_of(d_get(vw(*ked), lab_v())->Str_0); if x.is_some() && raw.len() <= 0xff_ffff { l_vs_hex(d_get(vw(*ked), lab_v())->Str_0); thm_version(x->Some_0.0, 1, 0, t_json(), raw.len() as int); } }

@fn cesr::core::common::versify(ident, version, kind, size) -> res
ensures
    ({ let id = if ident.is_some() { ident->Some_0@ } else { t_keri() }; let k = if kind.is_some() { kind->Some_0@ } else { t_json() };
       let (ma, mi) = if version.is_some() { (version->Some_0.major as int, version->Some_0.minor as int) } else { (1int, 0int) }; let n = if size.is_some() { size->Some_0 as int } else { 0 };
       res.is_ok() == vs_ok(id, ma, mi, k, n) && (res.is_ok() ==> res->Ok_0@ == vs_text(id, ma, mi, k, n)) }),
@entry
    broadcast use {l_vs_hexpad};

@fn cesr::core::common::loads(raw, size, kind) -> res
ensures
    res.is_ok() == lo_of(raw@, size, ostr(kind)).is_some(), res.is_ok() ==> vw(res->Ok_0) == lo_of(raw@, size, ostr(kind))->Some_0,

@fn cesr::core::common::dumps(ked, kind) -> res
ensures
    res.is_ok() == (kind.is_none() || kind->Some_0@ == t_json()), res.is_ok() ==> res->Ok_0@ == jsn(vw(*ked)),

@fn cesr::core::common::sniff(raw) -> res
ensures
    match sn_of(raw@) { Some(x) => res.is_ok() && vp_is(x, res->Ok_0.ident@, res->Ok_0.version, res->Ok_0.kind@, res->Ok_0.size as int), None => res.is_err() },
@entry
    broadcast use {ax_rever, ax_utf8_ascii};
    let ghost h = sn_head(raw@);
    proof { l_re_first(h); let i = re_first(h); if i >= 0 { let v = h.subrange(i, i + 17); l_vs_repl(v); l_vs_hex(v); } }
@loop 0 vars(t)
    t@ == h.take($k as int), $it@.len() == 29, h == sn_head(raw@), raw@.len() >= 29, forall|i: int| 0 <= i < 29 ==> *(#[trigger] $it@[i]) == raw@[i],
@loop 0 end
    proof { assert(h.take($k as int) =~= h.take($k - 1) + seq![h[$k - 1]]); }
@loop 0 after
    proof { assert(h.take(29) =~= h); }
