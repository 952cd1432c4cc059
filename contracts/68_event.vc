@struct cesr::core::sadder::ExhaleResult

@struct cesr::core::sadder::InhaleResult

@fn cesr::core::sadder::inhale(raw) -> res
ensures
    match sn_of(raw@) { Some(x) if x.1 == 1 && x.2 == 0 => match lo_of(raw@, Some(x.4 as u32), Some(x.3)) {
            Some(d) => res.is_ok() && vw(res->Ok_0.ked) == d && vp_is(x, res->Ok_0.ident@, res->Ok_0.version, res->Ok_0.kind@, res->Ok_0.size as int), None => res.is_err() },
        _ => res.is_err() },
@entry
    proof { if sn_of(raw@).is_some() { l_sn(raw@); } }

@fn cesr::core::sadder::exhale(ked, kind) -> res
requires
    jsn(vw(*ked)).len() <= 0xffff_ffff,
ensures
    match sz_of(vw(*ked), ostr(kind)) {
        Some((raw, d, id)) => res.is_ok() && res->Ok_0.raw@ == raw && vw(res->Ok_0.ked) == d && res->Ok_0.ident@ == id && res->Ok_0.kind@ == t_json() && res->Ok_0.version.major == 1 && res->Ok_0.version.minor == 0,
        None => res.is_err() },

@fn cesr::core::sadder::said(ked) -> res
ensures
    ({ let d = vw(*ked); res.is_ok() == (d is Obj && d_has(d, lab_d()) && d_get(d, lab_d()) is Str) && (res.is_ok() ==> DV::Str(res->Ok_0@) == d_get(d, lab_d())) }),

@trait cesr::core::sadder::Sadder
    spec fn sv(&self) -> SV;

@fn cesr::core::sadder::Sadder::code(self) -> res
ensures
    res@ == self.sv().code,

@fn cesr::core::sadder::Sadder::raw(self) -> res
ensures
    res@ == self.sv().raw,

@fn cesr::core::sadder::Sadder::ked(self) -> res
ensures
    vw(res) == self.sv().ked,

@fn cesr::core::sadder::Sadder::ident(self) -> res
ensures
    res@ == self.sv().ident,

@fn cesr::core::sadder::Sadder::kind(self) -> res
ensures
    res@ == self.sv().kind,

@fn cesr::core::sadder::Sadder::size(self) -> res
ensures
    res as int == self.sv().size,

@fn cesr::core::sadder::Sadder::version(self) -> res
ensures
    res.major as int == self.sv().major, res.minor as int == self.sv().minor,

@fn cesr::core::sadder::Sadder::saider(self) -> res
ensures
    res.mv() == self.sv().said,

@fn cesr::core::sadder::Sadder::set_code(self, code)
ensures
    final(self).sv() == (SV { code: code@, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_raw(self, raw)
ensures
    final(self).sv() == (SV { raw: raw@, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_ked(self, ked)
ensures
    final(self).sv() == (SV { ked: vw(*ked), ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_ident(self, ident)
ensures
    final(self).sv() == (SV { ident: ident@, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_kind(self, kind)
ensures
    final(self).sv() == (SV { kind: kind@, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_size(self, size)
ensures
    final(self).sv() == (SV { size: size as int, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_version(self, version)
ensures
    final(self).sv() == (SV { major: version.major as int, minor: version.minor as int, ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::set_saider(self, saider)
ensures
    final(self).sv() == (SV { said: saider.mv(), ..old(self).sv() }),

@fn cesr::core::sadder::Sadder::new(code, raw, kind, ked, sad) -> res
requires
    sd_fits(raw, ked),
ensures
    raw.is_some() || ked.is_some() ==> match sd_new(code, raw, kind, ked) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },
    raw.is_none() && ked.is_none() ==> res.is_ok() == sad.is_some() && (sad.is_some() ==> cloned(*sad->Some_0, res->Ok_0)),

@fn cesr::core::sadder::Sadder::populate_from_raw(self, raw) -> res
ensures
    match sd_raw(raw@, old(self).sv().code) { Some(s) => res.is_ok() && final(self).sv() == s, None => res.is_err() },
@entry
    proof { if sn_of(raw@).is_some() { l_sn(raw@); } }

@fn cesr::core::sadder::Sadder::populate_from_ked(self, ked, kind) -> res
requires
    jsn(vw(*ked)).len() <= 0xffff_ffff,
ensures
    match sd_ked(vw(*ked), ostr(kind), old(self).sv().code) { Some(s) => res.is_ok() && final(self).sv() == s, None => res.is_err() },
@entry
    proof { if sz_of(vw(*ked), ostr(kind)).is_some() { thm_sizeify(vw(*ked), ostr(kind)); } }

@fn cesr::core::sadder::Sadder::populate_from_kind_and_self(self, kind) -> res
requires
    jsn(old(self).sv().ked).len() <= 0xffff_ffff,
ensures
    match sd_ked(old(self).sv().ked, Some(kind@), old(self).sv().code) { Some(s) => res.is_ok() && final(self).sv() == s, None => res.is_err() },
@entry
    proof { if sz_of(self.sv().ked, Some(kind@)).is_some() { thm_sizeify(self.sv().ked, Some(kind@)); } }

@fn cesr::core::sadder::Sadder::said(self) -> res
requires
    m_st(self.sv().said),
ensures
    m_wf(self.sv().said) ==> res.is_ok() && res->Ok_0@ == m_text(self.sv().said),

@fn cesr::core::sadder::Sadder::saidb(self) -> res
requires
    m_st(self.sv().said),
ensures
    m_wf(self.sv().said) ==> res.is_ok() && res->Ok_0@ == m_text(self.sv().said),

@sadderimpl cesr::core::serder::Serder

@sadderimpl cesr::core::creder::Creder

@fn cesr::core::serder::validate_ident(ident) -> res
ensures
    res.is_ok() == (ident@ == t_keri()),

@fn cesr::core::creder::validate_ident(ident) -> res
ensures
    res.is_ok() == (ident@ == t_acdc()),

@fn cesr::core::serder::Serder::new(code, raw, kind, ked, sad) -> res
requires
    sd_fits(raw, ked),
ensures
    raw.is_some() || ked.is_some() ==> match sd_only(sd_new(code, raw, kind, ked), t_keri()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },
    raw.is_none() && ked.is_none() ==> res.is_ok() == (sad.is_some() && sad->Some_0.sv().ident == t_keri()) && (res.is_ok() ==> res->Ok_0 == *sad->Some_0),

@fn cesr::core::serder::Serder::new_with_ked(ked, code, kind) -> res
requires
    jsn(vw(*ked)).len() <= 0xffff_ffff,
ensures
    match sd_only(sd_ked(vw(*ked), ostr(kind), sd_code(oss(code))), t_keri()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },

@fn cesr::core::serder::Serder::new_with_raw(raw) -> res
ensures
    match sd_only(sd_raw(raw@, seq![69u8]), t_keri()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },

@fn cesr::core::creder::Creder::new(code, raw, kind, ked, sad) -> res
requires
    sd_fits(raw, ked),
ensures
    raw.is_some() || ked.is_some() ==> match sd_only(sd_new(code, raw, kind, ked), t_acdc()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },
    raw.is_none() && ked.is_none() ==> res.is_ok() == (sad.is_some() && sad->Some_0.sv().ident == t_acdc()) && (res.is_ok() ==> res->Ok_0 == *sad->Some_0),

@fn cesr::core::creder::Creder::new_with_ked(ked, code, kind) -> res
requires
    jsn(vw(*ked)).len() <= 0xffff_ffff,
ensures
    match sd_only(sd_ked(vw(*ked), ostr(kind), sd_code(oss(code))), t_acdc()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },

@fn cesr::core::creder::Creder::new_with_raw(raw) -> res
ensures
    match sd_only(sd_raw(raw@, seq![69u8]), t_acdc()) { Some(s) => res.is_ok() && res->Ok_0.sv() == s, None => res.is_err() },
