//! Kinds for the typed primitives: numbers, date-times, digests, keys, signatures, salts.
use crate::cesr::{iv, mutate, bmutate, mv};
use crate::ensure;
use crate::fw::*;
use crate::oracle::{self as o, I, M};
use keride::cesr::*;
use keride::signing::Signer;

// ---- C11: constructors only yield their own codes --------------------------------------------
pub const TYPES: &[(&str, &[&str], Option<&str>)] = &[
    ("number", &["M", "0H", "N", "0A"], Some("M")),
    ("seqner", &["0A"], Some("0A")),
    ("dater", &["1AAG"], Some("1AAG")),
    ("bexter", &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"], Some("4A")),
    ("pather", &["4A", "5A", "6A", "7AAA", "8AAA", "9AAA"], Some("4A")),
    ("diger", &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], Some("E")),
    ("verfer", &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"], Some("B")),
    ("cigar", &["0B", "0C", "0I"], None),
    ("salter", &["0A"], Some("0A")),
    ("signer", &["A", "J", "Q"], Some("A")),
    ("prefixer", &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], Some("B")),
    ("saider", &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"], Some("E")),
];
pub fn build(ty: &str, code: Option<&str>, form: u128, x: &[u8]) -> Option<M> {
    let s = String::from_utf8(x.to_vec()).ok();
    let (raw, qb64b, qb64, qb2) = match form {
        0 => (Some(x), None, None, None),
        1 => (None, Some(x), None, None),
        2 => (None, None, Some(s.as_deref()?), None),
        _ => (None, None, None, Some(x)),
    };
    match ty {
        "number" => Number::new(None, None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "seqner" => Seqner::new(None, None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "dater" => Dater::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "bexter" => Bexter::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "pather" => keride::pathing::pather::Pather::new(None, None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "diger" => Diger::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "verfer" => Verfer::new(code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "cigar" => Cigar::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "salter" => Salter::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "signer" => Signer::new(None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "prefixer" => keride::prefexing::prefixer::Prefixer::new(None, None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        "saider" => Saider::new(None, None, None, None, code, raw, qb64b, qb64, qb2).ok().map(|m| mv(&m)),
        _ => None,
    }
}
/// the shorthand constructors; no explicit code
fn short(ty: &str, form: u128, x: &[u8]) -> Option<M> {
    let s = String::from_utf8(x.to_vec()).ok();
    macro_rules! go {
        ($t:ty $(, $e:expr)*) => {
            match form {
                1 => <$t>::new_with_qb64b(x $(, $e)*).ok().map(|m| mv(&m)),
                2 => <$t>::new_with_qb64(s.as_deref()? $(, $e)*).ok().map(|m| mv(&m)),
                _ => <$t>::new_with_qb2(x $(, $e)*).ok().map(|m| mv(&m)),
            }
        };
    }
    match ty {
        "number" => go!(Number),
        "seqner" => go!(Seqner),
        "dater" => go!(Dater),
        "bexter" => go!(Bexter),
        "pather" => go!(keride::pathing::pather::Pather),
        "diger" => go!(Diger),
        "verfer" => go!(Verfer),
        "cigar" => go!(Cigar, None),
        "salter" => go!(Salter, None),
        "signer" => go!(Signer, None),
        "prefixer" => go!(keride::prefexing::prefixer::Prefixer),
        _ => go!(Saider),
    }
}
pub fn want(code: Option<&str>, form: u128, x: &[u8]) -> Option<M> {
    match form {
        0 => o::m_new(code?, x),
        1 => std::str::from_utf8(x).ok().and_then(|_| o::m_parse(x)),
        2 => o::m_parse(x),
        _ => o::m_bparse(x),
    }
}
/// is this the private key of some suite, so that a signer exists
fn seed_ok(m: &M) -> bool {
    match m.code.as_str() {
        "J" => k256::ecdsa::SigningKey::from_slice(&m.raw).is_ok(),
        "Q" => p256::ecdsa::SigningKey::from_slice(&m.raw).is_ok(),
        _ => true,
    }
}
fn ck_typed(c: &Case) -> Result<bool, String> {
    let (ty, codes, dflt) = TYPES[c.n[0] as usize % TYPES.len()];
    let form = c.n[1] % 4;
    let explicit = if c.n[2] == 1 { Some(c.s(0)) } else { None };
    let x = &c.b[1];
    if form == 2 && std::str::from_utf8(x).is_err() {
        return Ok(false);
    }
    // how a type looks at material: nothing but its code set matters
    let w = want(explicit.as_deref().or(dflt), form, x).filter(|m| codes.contains(&m.code.as_str()));
    let w = w.filter(|m| ty != "signer" || seed_ok(m));
    let got = build(ty, explicit.as_deref(), form, x);
    if let Some(g) = &got {
        ensure!(codes.contains(&g.code.as_str()), "{ty} holds code {:?} (form {form}, explicit code {explicit:?}, material {:?})", g.code, String::from_utf8_lossy(x));
        // unpublished codes that Matter maps into their family are not judged here
        if form != 0 || explicit.is_some() && o::msz(explicit.as_deref().or(dflt).unwrap_or("").as_bytes()).is_some() {
            ensure!(w.as_ref() == Some(g), "{ty} is {} {} {} from form {form}, explicit code {explicit:?}, material {:?}: expected {}", g.code, g.size, hex(&g.raw), String::from_utf8_lossy(x),
                w.as_ref().map_or("a refusal".to_string(), |w| format!("{} {} {}", w.code, w.size, hex(&w.raw))));
        }
    } else if let Some(w) = &w {
        // material of the type is taken unless an explicit code of another type accompanies it
        if explicit.as_ref().map_or(form > 0, |e| codes.contains(&e.as_str())) {
            return Err(format!("{ty} refuses {} {} {} from form {form}, explicit code {explicit:?}", w.code, w.size, hex(&w.raw)));
        }
    }
    if form > 0 {
        let g = short(ty, form, x);
        let w = want(None, form, x).filter(|m| codes.contains(&m.code.as_str()) && (ty != "signer" || seed_ok(m)));
        ensure!(g == w, "{ty}::new_with_qb64b/qb64/qb2 (form {form}) of {:?} gives {:?}, expected {:?}", String::from_utf8_lossy(x), g, w);
    }
    Ok(want(explicit.as_deref().or(dflt), form, x).is_some())
}
fn material(r: &mut Rng, code: &str) -> M {
    let n = o::m_raw_size(code).unwrap_or_else(|| {
        let k = 3 * r.below(30);
        let ls = o::msz(code.as_bytes()).unwrap().ls;
        if k < ls { 3 - ls } else { k - ls }
    });
    let raw = r.bytes(n);
    match o::msz(code.as_bytes()).unwrap().fs {
        Some(_) => M { code: code.into(), size: 0, raw },
        None => M { code: code.into(), size: raw.len().div_ceil(3) as u32, raw },
    }
}
fn gen_typed(r: &mut Rng, i: u64) -> Option<Case> {
    // systematic: every type x code x form, then random
    let nc = o::MATTER.len() as u64;
    let (t, code, form, sys) = if i < TYPES.len() as u64 * nc * 4 {
        (i % TYPES.len() as u64, o::MATTER[(i / TYPES.len() as u64 % nc) as usize].0, i / TYPES.len() as u64 / nc, true)
    } else {
        let t = r.below(TYPES.len());
        let code = if r.chance(2) { *r.pick(TYPES[t].1) } else { r.pick(o::MATTER).0 };
        (t as u64, code, r.below(4) as u64, false)
    };
    let m = material(r, code);
    let mut x = match form {
        0 => m.raw.clone(),
        1 | 2 => o::m_text(&m),
        _ => o::b64d(&o::m_text(&m)).unwrap(),
    };
    if !sys && form > 0 && r.chance(6) {
        x = if form == 3 { bmutate(r, x, o::msz(code.as_bytes()).map_or(2, |z| z.hs + z.ss)) } else { mutate(r, x, o::msz(code.as_bytes()).map_or(2, |z| z.hs + z.ss)) };
    }
    let ex = if form == 0 {
        code.to_string()
    } else if r.chance(2) {
        r.pick(TYPES[t as usize].1).to_string()
    } else {
        r.pick(o::MATTER).0.to_string()
    };
    let has = if form == 0 { !r.chance(8) } else { r.chance(3) };
    Some(Case::new("typed").b(ex).b(x).n(t).n(form).n(has as u8))
}

const SGCODES: &[&str] = &["A", "B", "C", "D", "E", "F", "2A", "2B", "2C", "2D", "2E", "2F"];
fn ck_siger(c: &Case) -> Result<bool, String> {
    let form = c.n[0] % 4;
    let (index, ondex) = (c.n[1] as u32, if c.n[3] == 1 { Some(c.n[2] as u32) } else { None });
    let code = c.s(0);
    let x = &c.b[1];
    let s = String::from_utf8(x.clone()).ok();
    let w: Option<I> = match form {
        0 => o::i_new(&code, x, index, ondex),
        1 => s.as_ref().and_then(|_| o::i_parse(x)),
        2 => o::i_parse(x),
        _ => o::i_bparse(x),
    };
    let triv = w.is_none();
    let w = w.filter(|w| SGCODES.contains(&w.code.as_str()));
    let got = match form {
        0 => Siger::new(None, Some(index), ondex, Some(&code), Some(x), None, None, None),
        1 => Siger::new_with_qb64b(x, None),
        2 => match &s { Some(s) => Siger::new_with_qb64(s, None), None => return Ok(false) },
        _ => Siger::new_with_qb2(x, None),
    };
    let g = got.ok().map(|g| iv(&g));
    ensure!(g == w, "Siger (form {form}, code {code:?}, index {index}, ondex {ondex:?}) gives {g:?}, expected {w:?}");
    Ok(!triv)
}
fn gen_siger(r: &mut Rng, i: u64) -> Option<Case> {
    let code = if i < 4 * o::INDEXER.len() as u64 { o::INDEXER[(i / 4) as usize].0 } else { r.pick(o::INDEXER).0 };
    let form = if i < 4 * o::INDEXER.len() as u64 { i % 4 } else { r.below(4) as u64 };
    let z = o::isz(code.as_bytes()).unwrap();
    let index = if z.0.fs.is_none() { r.below(20) as u32 } else { r.num(6 * (z.0.ss - z.0.os) as u32) as u32 };
    let ondex = if z.0.os > 0 && z.1 != 'c' { r.num(6 * z.0.os as u32) as u32 } else { index };
    let has = z.1 != 'c' || r.chance(5);
    let cs = z.0.hs + z.0.ss;
    let n = (z.0.fs.unwrap_or(cs + 4 * index as usize) - cs) * 3 / 4 - z.0.ls;
    let raw = r.bytes(n);
    let m = I { code: code.into(), index, ondex: if z.1 == 'c' { 0 } else { ondex }, raw: raw.clone() };
    let mut x = match form { 0 => raw, 1 | 2 => o::i_text(&m), _ => o::b64d(&o::i_text(&m)).unwrap() };
    if form > 0 && r.chance(6) { x = if form == 3 { bmutate(r, x, o::msz(code.as_bytes()).map_or(2, |z| z.hs + z.ss)) } else { mutate(r, x, o::msz(code.as_bytes()).map_or(2, |z| z.hs + z.ss)) }; }
    Some(Case::new("siger").b(code).b(x).n(form).n(index).n(ondex).n(has as u8))
}

// ---- C08 -----------------------------------------------------------------------------------
fn nview(n: &Number, v: u128, how: &str) -> Result<(), String> {
    let got = n.num().map_err(|e| format!("num of {v} ({how}) refused: {e}"))?;
    ensure!(got == v, "{how}: value {got}, expected {v}");
    let h = n.numh().map_err(|e| format!("numh of {v} ({how}) refused: {e}"))?;
    ensure!(h == format!("{v:x}"), "{how}: hexadecimal {h:?}, expected {v:x}");
    ensure!(n.positive().ok() == Some(v > 0), "{how}: positive of {v} is wrong");
    Ok(())
}
fn ck_number(c: &Case) -> Result<bool, String> {
    let v = c.n[0];
    let (code, len) = if v < 1 << 16 { ("M", 2) } else if v < 1 << 32 { ("0H", 4) } else if v < 1 << 64 { ("N", 8) } else { ("0A", 16) };
    let w = M { code: code.into(), size: 0, raw: v.to_be_bytes()[16 - len..].to_vec() };
    let n = Number::new_with_num(v).map_err(|e| format!("number {v} refused: {e}"))?;
    ensure!(mv(&n) == w, "number {v} is {:?}, expected {w:?}", mv(&n));
    nview(&n, v, "from integer")?;
    for h in [format!("{v:x}"), format!("{v:X}"), format!("{v:032x}"), c.s(0)] {
        let hv = u128::from_str_radix(&h, 16);
        if h.starts_with('+') { continue; }
        let got = Number::new_with_numh(&h);
        if h.is_empty() {
            ensure!(got.is_ok(), "empty hexadecimal text refused");
            nview(&got.unwrap(), 0, "from empty text")?;
            continue;
        }
        match hv {
            Ok(hv) => nview(&got.map_err(|e| format!("hexadecimal {h:?} refused: {e}"))?, hv, "from hexadecimal")?,
            Err(_) => ensure!(got.is_err(), "hexadecimal {h:?} accepted as {:?}", got.unwrap().num()),
        }
    }
    let t = n.qb64().map_err(|e| format!("qb64 of number {v} refused: {e}"))?;
    let b = n.qb2().map_err(|e| format!("qb2 of number {v} refused: {e}"))?;
    nview(&Number::new_with_qb64(&t).map_err(|e| e.to_string())?, v, "through text")?;
    nview(&Number::new_with_qb64b(t.as_bytes()).map_err(|e| e.to_string())?, v, "through text bytes")?;
    nview(&Number::new_with_qb2(&b).map_err(|e| e.to_string())?, v, "through binary")?;
    // any wider code holds it too
    for (code, len) in [("M", 2), ("0H", 4), ("N", 8), ("0A", 16)] {
        if len >= w.raw.len() {
            let n = Number::new_with_raw(&v.to_be_bytes()[16 - len..], Some(code)).map_err(|e| e.to_string())?;
            nview(&n, v, "from raw")?;
        }
    }
    // sequence number
    let sview = |s: &Seqner, how: &str| -> Result<(), String> {
        ensure!(s.sn().ok() == Some(v), "sequence number {how}: {:?}, expected {v}", s.sn().ok());
        ensure!(s.snh().ok() == Some(format!("{v:x}")), "sequence number {how}: {:?}, expected {v:x}", s.snh().ok());
        let t = s.qb64().map_err(|e| e.to_string())?;
        ensure!(t.len() == 24 && t == String::from_utf8_lossy(&o::m_text(&M { code: "0A".into(), size: 0, raw: v.to_be_bytes().to_vec() })), "sequence number {v} {how}: text {t:?}");
        Ok(())
    };
    let s = Seqner::new_with_sn(v).map_err(|e| e.to_string())?;
    sview(&s, "from integer")?;
    sview(&Seqner::new_with_snh(&format!("{v:x}")).map_err(|e| e.to_string())?, "from hexadecimal")?;
    sview(&Seqner::new_with_snh(&format!("{v:020X}")).map_err(|e| e.to_string())?, "from hexadecimal")?;
    sview(&Seqner::new_with_qb64(&s.qb64().unwrap()).map_err(|e| e.to_string())?, "through text")?;
    sview(&Seqner::new_with_qb64b(&s.qb64b().unwrap()).map_err(|e| e.to_string())?, "through text bytes")?;
    sview(&Seqner::new_with_qb2(&s.qb2().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?, "through binary")?;
    Ok(true)
}
fn gen_number(r: &mut Rng, i: u64) -> Option<Case> {
    let edge: Vec<u128> = [0u128, 1, 15, 16, 255, 256, 65535, 65536, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 48) + 7, (1 << 64) - 1, 1 << 64, 1 << 96, u128::MAX, u128::MAX - 1].to_vec();
    let v = if (i as usize) < edge.len() { edge[i as usize] } else { r.num(128) };
    let h = match r.below(6) {
        0 => String::new(),
        1 => { let n = r.below(40); (0..n).map(|_| *r.pick(&['0', 'a', 'F', '9', 'f', '1'])).collect() }
        2 => format!("-{:x}", r.num(20)),
        3 => format!("0x{:x}", r.num(20)),
        4 => format!("{:x}g", r.num(20)),
        _ => format!("{:x}", r.num(128)),
    };
    Some(Case::new("number").n(v).b(h))
}

// ---- C09 -----------------------------------------------------------------------------------
fn ck_dater(c: &Case) -> Result<bool, String> {
    let s = c.s(0);
    let profile = s.len() == 32 && s.bytes().all(|b| b.is_ascii_digit() || b"-T:.+".contains(&b));
    let d = Dater::new_with_dts(&s, None);
    let d = match d {
        Ok(d) => d,
        Err(e) => { ensure!(!profile, "date-time {s:?} refused: {e}"); return Ok(false); }
    };
    // the only letters that stand for something else are c, d and p
    let w: String = s.chars().map(|c| match c { ':' => 'c', '.' => 'd', '+' => 'p', c => c }).collect();
    let back: String = w.chars().map(|c| match c { 'c' => ':', 'd' => '.', 'p' => '+', c => c }).collect();
    let t = d.qb64().map_err(|e| format!("qb64 of {s:?} refused: {e}"))?;
    ensure!(t == format!("1AAG{w}"), "date-time {s:?} has text {t:?}");
    ensure!(t.bytes().all(|b| o::idx(b).is_some()), "date-time {s:?} has text {t:?}");
    let b = d.qb2().map_err(|e| e.to_string())?;
    for d in [d, Dater::new_with_qb64(&t).map_err(|e| e.to_string())?, Dater::new_with_qb64b(t.as_bytes()).map_err(|e| e.to_string())?, Dater::new_with_qb2(&b).map_err(|e| e.to_string())?] {
        let g = d.dts().map_err(|e| e.to_string())?;
        ensure!(g == back && (!profile || g == s), "date-time {s:?} reads back as {g:?}");
        ensure!(d.dtsb().ok() == Some(g.into_bytes()), "dtsb of {s:?} differs");
    }
    Ok(profile)
}
fn gen_dater(r: &mut Rng, _i: u64) -> Option<Case> {
    let z = *r.pick(&['+', '-']);
    let mut s = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}{z}{:02}:{:02}", r.below(10000), r.below(13), r.below(32), r.below(25), r.below(61), r.below(61), r.below(1000000), r.below(24), r.below(60)).into_bytes();
    if r.chance(4) {
        match r.below(6) {
            0 => { s.pop(); }
            1 => s.push(b'0'),
            5 => { let k = *r.pick(&[4usize, 7, 10, 13, 16, 19, 26, 29, 0, 31]); s[k] = b' ' + r.below(95) as u8; }
            2 => { let k = r.below(s.len()); s[k] = *r.pick(b"cdpZz A\x7f/_"); }
            3 => { let k = r.below(s.len()); s.remove(k); }
            _ => { let k = r.below(s.len()); s.extend_from_slice(&s.clone()[..k]); }
        }
    }
    Some(Case::new("dater").b(s))
}

// ---- C10 -----------------------------------------------------------------------------------
fn ck_bext(c: &Case) -> Result<bool, String> {
    let code = c.s(1);
    if c.n[0] == 1 {
        // any raw material reads as some string, without a crash
        let b = match Bexter::new_with_raw(&c.b[0], Some(&code)) { Ok(b) => b, Err(e) => return Err(format!("raw material refused: {e}")) };
        let m = mv(&b);
        ensure!(m.raw == c.b[0], "raw material changed");
        let ls = (3 - m.raw.len() % 3) % 3;
        let mut f = vec![0u8; ls];
        f.extend(&m.raw);
        let t = String::from_utf8(o::b64e(&f)).unwrap();
        let cut = if ls == 0 { usize::from(t.starts_with('A')) } else { (ls + 1) % 4 };
        ensure!(b.bext().ok().as_deref() == Some(&t[cut..]), "string of raw {:?} is {:?}", c.b[0], b.bext().ok());
        return Ok(true);
    }
    let Ok(s) = String::from_utf8(c.b[0].clone()) else { return Ok(false) };
    let valid = s.bytes().all(|b| o::idx(b).is_some());
    let code = if code.is_empty() { None } else { Some(code.as_str()) };
    let got = Bexter::new(Some(&s), code, None, None, None, None);
    if !valid {
        ensure!(got.is_err(), "string {s:?} accepted");
        return Ok(true);
    }
    let b = got.map_err(|e| format!("string {s:?} refused: {e}"))?;
    ensure!(TYPES[3].1.contains(&mv(&b).code.as_str()), "string {s:?} has code {}", mv(&b).code);
    let t = b.qb64().map_err(|e| format!("qb64 of {s:?} refused: {e}"))?;
    let q = b.qb2().map_err(|e| e.to_string())?;
    let reserved = s.len() % 4 == 0 && s.starts_with('A');
    for x in [b, Bexter::new_with_qb64(&t).map_err(|e| e.to_string())?, Bexter::new_with_qb64b(t.as_bytes()).map_err(|e| e.to_string())?, Bexter::new_with_qb2(&q).map_err(|e| e.to_string())?] {
        let g = x.bext().map_err(|e| format!("string of {s:?} fails: {e}"))?;
        ensure!(if reserved { g == s[1..] } else { g == s }, "string {s:?} reads back as {g:?}");
    }
    Ok(!reserved)
}
fn gen_bext(r: &mut Rng, i: u64) -> Option<Case> {
    let codes = ["", "4A", "5A", "6A", "7AAA", "8AAA", "9AAA"];
    let k = if r.chance(2) { 1 } else { 7 };
    let code = codes[r.below(k)];
    if r.chance(4) {
        let n = r.len(14);
        return Some(Case::new("bext").b(r.bytes(n)).b(codes[k.min(6)]).n(1));
    }
    let n = match i { 0 => 4095 * 4 - 4, 1 => 4095 * 4, 2 => 4095 * 4 + 1, 3 => 4096 * 4, _ => r.len(18) };
    let mut s = r.b64(n).into_bytes();
    match r.below(8) {
        0 => s.insert(0, b'A'),
        1 if !s.is_empty() => { let k = r.below(s.len()); s[k] = *r.pick(b"=+/ .~\n@[`{\x00"); }
        2 => s.push(*r.pick(b"=\n\r ")),
        3 if !s.is_empty() => { let k = r.below(s.len()); s.splice(k..k, "\u{e9}\u{ff21}".bytes()); }
        _ => {}
    }
    Some(Case::new("bext").b(s).b(code).n(0))
}

// ---- C12 -----------------------------------------------------------------------------------
pub fn digest(code: &str, x: &[u8]) -> Option<Vec<u8>> {
    use blake2::digest::{consts::U32, Update, VariableOutput};
    use sha2::Digest;
    Some(match code {
        "E" => blake3::hash(x).as_bytes().to_vec(),
        "F" => blake2::Blake2b::<U32>::digest(x).to_vec(),
        "G" => blake2::Blake2s256::digest(x).to_vec(),
        "H" => sha3::Sha3_256::digest(x).to_vec(),
        "I" => sha2::Sha256::digest(x).to_vec(),
        "0D" => { let mut out = vec![0; 64]; blake3::Hasher::new().update(x).finalize_xof().fill(&mut out); out }
        "0E" => { let mut h = blake2::Blake2bVar::new(64).unwrap(); h.update(x); let mut out = vec![0; 64]; h.finalize_variable(&mut out).unwrap(); out }
        "0F" => sha3::Sha3_512::digest(x).to_vec(),
        "0G" => sha2::Sha512::digest(x).to_vec(),
        _ => return None,
    })
}
pub const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
fn ck_diger(c: &Case) -> Result<bool, String> {
    let (c1, c2) = (DIGS[c.n[0] as usize % 9], DIGS[c.n[1] as usize % 9]);
    let (x, y) = (&c.b[0], &c.b[1]);
    let a = Diger::new_with_ser(x, Some(c1)).map_err(|e| format!("digest {c1} refused: {e}"))?;
    ensure!(mv(&a) == M { code: c1.into(), size: 0, raw: digest(c1, x).unwrap() }, "digest {c1} of {} is {:?}", hex(x), mv(&a));
    let d = Diger::new_with_ser(x, None).map_err(|e| e.to_string())?;
    ensure!(d.code() == "E", "default digest code {}", d.code());
    ensure!(a.verify(x).ok() == Some(true), "digest {c1} of {} does not verify it", hex(x));
    ensure!(a.verify(y).ok() == Some(x == y), "digest {c1} of {} verifies {}: {:?}", hex(x), hex(y), a.verify(y).ok());
    let a2 = Diger::new_with_qb64(&a.qb64().map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(a2.verify(x).ok() == Some(true) && a2.verify(y).ok() == Some(x == y), "digest {c1} read back verifies otherwise");
    // compare: b is a digest of x or y
    for (src, name) in [(x, "same"), (y, "other")] {
        let b = Diger::new_with_ser(src, Some(c2)).map_err(|e| e.to_string())?;
        for ser in [x, y] {
            let w = mv(&a) == mv(&b) || (c1 != c2 && ser == x && ser == src);
            let g = a.compare(ser, None, Some(&b)).map_err(|e| format!("compare refused: {e}"))?;
            ensure!(g == w, "comparing {c1} with {c2} of {name} data answers {g}, expected {w}");
            let g = a.compare(ser, Some(b.qb64().unwrap().as_bytes()), None).map_err(|e| format!("compare refused: {e}"))?;
            ensure!(g == w, "comparing {c1} with text of {c2} of {name} data answers {g}, expected {w}");
        }
    }
    ensure!(a.compare(x, None, None).is_err(), "comparing with nothing answered");
    // a one-bit different digest does not verify and is not equal
    let mut raw = a.raw();
    let k = c.n[2] as usize % (raw.len() * 8);
    raw[k / 8] ^= 1 << (k % 8);
    let f = Diger::new_with_raw(&raw, Some(c1)).map_err(|e| e.to_string())?;
    ensure!(f.verify(x).ok() == Some(false), "altered digest verifies");
    ensure!(f.compare(x, None, Some(&a)).ok() == Some(false), "altered digest compares equal");
    Ok(true)
}
fn gen_diger(r: &mut Rng, i: u64) -> Option<Case> {
    let (a, b) = if i < 81 { (i % 9, i / 9) } else { (r.below(9) as u64, r.below(9) as u64) };
    let n = r.len(300);
    let x = r.bytes(n);
    let mut y = x.clone();
    match r.below(5) {
        0 => y.push(0),
        1 => { y.pop(); }
        2 if !y.is_empty() => { let k = r.below(y.len()); y[k] ^= 1 << r.below(8); }
        3 => { let n = r.len(300); y = r.bytes(n) }
        _ => {}
    }
    Some(Case::new("diger").b(x).b(y).n(a).n(b).n(r.below(4096)))
}

// ---- C13 -----------------------------------------------------------------------------------
pub fn public(suite: u128, seed: &[u8]) -> Option<Vec<u8>> {
    Some(match suite {
        0 => ed25519_dalek::SigningKey::from_bytes(seed.try_into().ok()?).verifying_key().to_bytes().to_vec(),
        1 => k256::ecdsa::SigningKey::from_slice(seed).ok()?.verifying_key().to_sec1_bytes().to_vec(),
        _ => p256::ecdsa::SigningKey::from_slice(seed).ok()?.verifying_key().to_encoded_point(true).as_bytes().to_vec(),
    })
}
fn verify(suite: u128, key: &[u8], sig: &[u8], ser: &[u8]) -> bool {
    match suite {
        0 => {
            use ed25519_dalek::Verifier;
            let k = match key.try_into().ok().and_then(|k| ed25519_dalek::VerifyingKey::from_bytes(k).ok()) { Some(k) => k, None => return false };
            ed25519_dalek::Signature::from_slice(sig).map_or(false, |s| k.verify(ser, &s).is_ok())
        }
        1 => {
            use k256::ecdsa::signature::Verifier;
            k256::ecdsa::VerifyingKey::from_sec1_bytes(key).ok().zip(k256::ecdsa::Signature::from_slice(sig).ok()).map_or(false, |(k, s)| k.verify(ser, &s).is_ok())
        }
        _ => {
            use p256::ecdsa::signature::Verifier;
            p256::ecdsa::VerifyingKey::from_sec1_bytes(key).ok().zip(p256::ecdsa::Signature::from_slice(sig).ok()).map_or(false, |(k, s)| k.verify(ser, &s).is_ok())
        }
    }
}
fn ck_sign(c: &Case) -> Result<bool, String> {
    let s = c.n[0] % 3;
    let (seed, ser) = (&c.b[0], &c.b[1]);
    let scode = ["A", "J", "Q"][s as usize];
    let key = match public(s, seed) { Some(k) => k, None => {
        ensure!(Signer::new_with_raw(seed, None, Some(scode)).is_err(), "signer from an invalid scalar");
        return Ok(false);
    } };
    let tr = match c.n[1] % 3 { 0 => None, 1 => Some(true), _ => Some(false) };
    let signer = Signer::new_with_raw(seed, tr, Some(scode)).map_err(|e| format!("signer refused: {e}"))?;
    let vcode = if tr.unwrap_or(true) { ["D", "1AAB", "1AAJ"] } else { ["B", "1AAA", "1AAI"] }[s as usize];
    let vk = M { code: vcode.into(), size: 0, raw: key.clone() };
    ensure!(mv(&signer.verfer()) == vk, "verification key {:?}, expected {vk:?}", mv(&signer.verfer()));
    ensure!(signer.verfer().transferable() == tr.unwrap_or(true), "key {vcode} says it is {}transferable", if tr.unwrap_or(true) { "not " } else { "" });
    let again = Signer::new_with_qb64(&signer.qb64().map_err(|e| e.to_string())?, tr).map_err(|e| e.to_string())?;
    ensure!(mv(&again.verfer()) == vk && mv(&again) == mv(&signer), "signer read back has another key");
    let cg = signer.sign_unindexed(ser).map_err(|e| format!("sign_unindexed refused: {e}"))?;
    ensure!(cg.code() == ["0B", "0C", "0I"][s as usize], "signature code {} for suite {scode}", cg.code());
    ensure!(mv(&cg.verfer()) == vk, "signature carries key {:?}", mv(&cg.verfer()));
    ensure!(verify(s, &key, &cg.raw(), ser), "signature of suite {scode} does not verify");
    ensure!(signer.verfer().verify(&cg.raw(), ser).ok() == Some(true), "verfer does not verify its own signature");
    let mut bad = ser.clone();
    if bad.is_empty() { bad.push(1) } else { let k = c.n[4] as usize % bad.len(); bad[k] ^= 1 }
    ensure!(signer.verfer().verify(&cg.raw(), &bad).ok() != Some(true), "verfer verifies other data");
    let mut sg = cg.raw();
    let k = c.n[4] as usize % sg.len();
    sg[k] ^= 1;
    ensure!((signer.verfer().verify(&sg, ser).ok() == Some(true)) == verify(s, &key, &sg, ser), "verification differs on an altered signature");
    for x in [&[sg.as_slice(), &[0]].concat()[..], &cg.raw()[..cg.raw().len() - 1], &[], &cg.raw()[1..], &[&[0], cg.raw().as_slice()].concat()] {
        ensure!((signer.verfer().verify(x, ser).ok() == Some(true)) == verify(s, &key, x, ser), "verification differs on a signature of {} bytes", x.len());
    }
    for x in [&[ser.as_slice(), &[0]].concat()[..], &[&[0], ser.as_slice()].concat(), if ser.is_empty() { &[1] } else { &ser[1..] }] {
        ensure!(signer.verfer().verify(&cg.raw(), x).ok() != Some(true), "verfer verifies other data");
    }
    // indexed
    let only = c.n[2] & 1 == 1;
    let index = c.n[3] as u32;
    let ondex = if c.n[2] & 2 == 2 { Some(c.n[5] as u32) } else { None };
    let g = signer.sign_indexed(ser, only, index, ondex);
    let big = index >= 64 || (!only && ondex.unwrap_or(index) != index);
    let code = match (only, big) {
        (false, false) => ["A", "C", "E"],
        (true, false) => ["B", "D", "F"],
        (false, true) => ["2A", "2C", "2E"],
        (true, true) => ["2B", "2D", "2F"],
    }[s as usize];
    let fits = index < 4096 && (only || ondex.unwrap_or(index) < 4096);
    match g {
        Err(e) => ensure!(!fits, "sign_indexed({only}, {index}, {ondex:?}) refused: {e}"),
        Ok(g) => {
            ensure!(fits, "sign_indexed({only}, {index}, {ondex:?}) gave {:?}", iv(&g));
            let g1 = iv(&g);
            let w = I { code: code.into(), index, ondex: if only { 0 } else { ondex.unwrap_or(index) }, raw: g1.raw.clone() };
            ensure!(g1 == w, "sign_indexed({only}, {index}, {ondex:?}) gave {g1:?}, expected {w:?}");
            ensure!(mv(&g.verfer()) == vk, "indexed signature carries key {:?}", mv(&g.verfer()));
            ensure!(verify(s, &key, &g1.raw, ser), "indexed signature does not verify");
            let t = g.qb64().map_err(|e| e.to_string())?;
            let b = Siger::new_with_qb64(&t, Some(&signer.verfer())).map_err(|e| e.to_string())?;
            ensure!(iv(&b) == w && mv(&b.verfer()) == vk, "indexed signature reads back as {:?}", iv(&b));
        }
    }
    // verification uses the suite of the key's own code: the same bytes under another suite's code do not
    let other = (s + 1 + c.n[4] % 2) % 3;
    if let Some(k2) = public(other, seed) {
        let v2 = Verfer::new_with_raw(&k2, Some(["D", "1AAB", "1AAJ"][other as usize])).map_err(|e| e.to_string())?;
        let w = verify(other, &k2, &cg.raw(), ser);
        ensure!((v2.verify(&cg.raw(), ser).ok() == Some(true)) == w, "verification under suite {other} of a signature of suite {s} is {:?}", v2.verify(&cg.raw(), ser).ok());
    }
    Ok(true)
}
fn gen_sign(r: &mut Rng, i: u64) -> Option<Case> {
    let mut seed = r.bytes(32);
    if r.chance(3) { seed = (0..32).map(|_| r.next() as u8).collect(); }
    let n = r.len(100);
    let ser = r.bytes(n);
    let edge = [0u32, 1, 62, 63, 64, 65, 4095, 4096, 5000, u32::MAX];
    let index = if r.chance(2) { *r.pick(&edge) } else { r.below(4096) as u32 };
    let ondex = match r.below(3) { 0 => index, 1 => *r.pick(&edge), _ => r.below(4096) as u32 };
    Some(Case::new("sign").b(seed).b(ser).n(i % 3).n(r.below(3)).n(r.below(4)).n(index).n(r.below(1 << 16)).n(ondex))
}

// ---- C21 -----------------------------------------------------------------------------------
fn argon(pwd: &[u8], salt: &[u8], n: usize, tier: &str) -> Option<Vec<u8>> {
    use argon2::{Algorithm, Argon2, Params, Version};
    let p = match tier {
        "min" => Params::new(8, 1, 1, Some(n)),
        "low" => Params::new(65536, 2, 1, Some(n)),
        "med" => Params::new(262144, 3, 1, Some(n)),
        "high" => Params::new(1048576, 4, 1, Some(n)),
        _ => return None,
    }.ok()?;
    let mut out = vec![0; n];
    Argon2::new(Algorithm::Argon2id, Version::V0x13, p).hash_password_into(pwd, salt, &mut out).ok()?;
    Some(out)
}
fn keyed(s: u128, tr: bool, seed: &[u8]) -> Option<(M, M)> {
    let key = public(s, seed)?;
    Some((M { code: ["A", "J", "Q"][s as usize].into(), size: 0, raw: seed.to_vec() },
        M { code: if tr { ["D", "1AAB", "1AAJ"] } else { ["B", "1AAA", "1AAI"] }[s as usize].into(), size: 0, raw: key }))
}
const TIERS: &[&str] = &["min", "low", "med", "high", "CESR", ""];
fn ck_salt(c: &Case) -> Result<bool, String> {
    let salt = &c.b[0];
    let path = c.s(1);
    let s = c.n[0] % 3;
    let code = ["A", "J", "Q"][s as usize];
    let tr = c.n[1] & 1 == 1;
    let temp = match c.n[2] { 0 => None, 1 => Some(true), _ => Some(false) };
    let own = TIERS[c.n[3] as usize % 6];
    let exp = if c.n[4] == 0 { None } else { Some(TIERS[(c.n[4] - 1) as usize % 6]) };
    let eff = if temp == Some(true) { "min" } else { exp.unwrap_or(own) };
    let salter = Salter::new_with_raw(salt, None, Some(own)).map_err(|e| format!("salter refused: {e}"))?;
    ensure!(salter.tier() == own, "tier {} of a salter made with {own}", salter.tier());
    let sz = c.n[7] as usize;
    let g = salter.stretch(Some(sz), Some(&path), exp, temp).ok();
    let w = argon(path.as_bytes(), salt, sz, eff);
    ensure!(g == w, "stretch({sz}, {path:?}, {exp:?}, {temp:?}) of a {own} salt gives {:?}, expected {:?}", g.map(|x| hex(&x)), w.map(|x| hex(&x)));
    if temp.is_none() && (own == "high" || own == "med") { return Ok(true); } // seconds for each key
    let (count, start) = (c.n[5] as usize, c.n[6] as usize);
    let w1 = |p: &str| argon(p.as_bytes(), salt, 32, eff).and_then(|seed| keyed(s, tr, &seed));
    let g = salter.signer(Some(code), Some(tr), Some(&path), exp, temp).ok().map(|g| (mv(&g), mv(&g.verfer())));
    let w = w1(&path);
    ensure!(g == w, "signer({code}, {tr}, {path:?}, {exp:?}, {temp:?}) gives {g:?}, expected {w:?}");
    let g = salter.signers(Some(count), Some(start), Some(&path), Some(code), Some(tr), exp, temp).ok().map(|v| v.iter().map(|g| (mv(g), mv(&g.verfer()))).collect::<Vec<_>>());
    let w: Option<Vec<_>> = (0..count).map(|i| w1(&format!("{path}{:x}", start + i))).collect();
    ensure!(g == w, "signers({count}, {start}, {path:?}, {code}) gives {g:?}, expected {w:?}");
    Ok(w.map_or(false, |w| !w.is_empty()))
}
fn gen_salt(r: &mut Rng, i: u64) -> Option<Case> {
    let salt = r.bytes(16);
    let n = r.len(20);
    let path = if r.chance(5) { String::new() } else { r.b64(n) };
    // slow tiers rarely: 64 MB and more per key
    let slow = i % 199 == 7;
    let temp = if slow { *r.pick(&[0u32, 2]) } else { *r.pick(&[0u32, 1, 2]) };
    if i == 11 || i == 12 { return Some(Case::new("salt").b(salt).b(path).n(i % 3).n(1).n(0).n(i - 9).n(0).n(0).n(0).n(32)); }
    let (own, exp) = if slow { (*r.pick(&[1u32, 0]), *r.pick(&[0u32, 2])) } else {
        let own = if temp == 1 { r.below(6) as u32 } else { *r.pick(&[0u32, 4, 5]) };
        (own, if temp == 1 { r.below(7) as u32 } else { *r.pick(&[0u32, 1, 1, 5]) })
    };
    let (count, start) = (if slow { 1 } else if r.chance(150) { 200 + r.below(120) as u32 } else { r.below(5) as u32 }, if r.chance(2) { r.below(40) as u32 } else { r.below(100000) as u32 });
    Some(Case::new("salt").b(salt).b(path).n(i % 3).n(r.below(2)).n(temp).n(own).n(exp).n(count).n(start).n(if slow { 32 } else { r.below(80) as u32 }))
}
fn ck_create(c: &Case) -> Result<bool, String> {
    use keride::signify::creating::SaltyCreator;
    let salt = &c.b[0];
    let q = String::from_utf8(o::m_text(&M { code: "0A".into(), size: 0, raw: salt.to_vec() })).unwrap();
    let own = if c.n[0] & 1 == 1 { Some(c.s(1)) } else { None };
    let given = if c.n[0] & 2 == 2 { Some(c.s(2)) } else { None };
    let (pidx, ridx, kidx) = (c.n[1] as u16, c.n[2] as u16, c.n[3] as u16);
    // every mode stretches with the minimum tier: temporary, explicitly, or by the salt's own tier
    let mode = c.n[7];
    let (tier, salter, temp) = match mode {
        0 => (Some(["low", "med"][c.n[6] as usize & 1]), None, true),
        1 => (Some("min"), None, false),
        2 => (None, Some(keride::cesr::Salter::new_with_qb64(&q, Some("min")).map_err(|e| e.to_string())?), false),
        _ => (Some("min"), Some(keride::cesr::Salter::new_with_qb64(&q, Some(["low", "med"][c.n[6] as usize & 1])).map_err(|e| e.to_string())?), false),
    };
    let cr = SaltyCreator::new(if mode < 2 { Some(&q) } else { None }, own.as_deref(), tier, salter).map_err(|e| e.to_string())?;
    let stem = match &own { Some(s) if !s.is_empty() => s.clone(), _ => given.clone().unwrap_or(format!("{pidx:x}")) };
    let tr = match c.n[4] % 3 { 0 => None, 1 => Some(true), _ => Some(false) };
    let codes: Vec<&str> = c.b[3].iter().map(|x| ["A", "J", "Q"][*x as usize % 3]).collect();
    let count = c.n[5] as u16;
    let list: Vec<&str> = if codes.is_empty() { vec!["A"; count as usize] } else { codes.clone() };
    let w: Option<Vec<_>> = list.iter().enumerate().map(|(i, k)| {
        let p = format!("{stem}{ridx:x}{:x}", kidx as usize + i);
        argon(p.as_bytes(), salt, 32, "min").and_then(|seed| keyed(["A", "J", "Q"].iter().position(|x| x == k).unwrap() as u128, tr.unwrap_or(true), &seed))
    }).collect();
    let g: Vec<_> = cr.create(if codes.is_empty() { None } else { Some(codes) }, Some(count), None, Some(pidx), Some(ridx), Some(kidx), given.as_deref(), tr, temp).iter().map(|g| (mv(g), mv(&g.verfer()))).collect();
    ensure!(Some(g.clone()) == w, "creator keys {g:?}, expected {w:?} (stem {stem:?}, ridx {ridx}, kidx {kidx})");
    Ok(true)
}
fn gen_create(r: &mut Rng, _i: u64) -> Option<Case> {
    let salt = r.bytes(16);
    let (a, b) = (r.len(12), r.len(12));
    let (a, b) = (r.b64(a), r.b64(b));
    let k = r.below(4);
    Some(Case::new("create").b(salt).b(a).b(b).b((0..k).map(|_| r.below(3) as u8).collect::<Vec<u8>>()).n(r.below(4)).n(r.num(16)).n(r.num(16)).n(r.num(16)).n(r.below(3)).n(if r.chance(150) { 200 + r.below(120) } else { r.below(4) }).n(r.below(2)).n(r.below(4)))
}

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { name: "typed", props: &["C11"], check: ck_typed, gen: gen_typed, weight: 4 },
        Kind { name: "siger", props: &["C11"], check: ck_siger, gen: gen_siger, weight: 1 },
        Kind { name: "number", props: &["C08"], check: ck_number, gen: gen_number, weight: 1 },
        Kind { name: "dater", props: &["C09"], check: ck_dater, gen: gen_dater, weight: 1 },
        Kind { name: "bext", props: &["C10"], check: ck_bext, gen: gen_bext, weight: 1 },
        Kind { name: "diger", props: &["C12"], check: ck_diger, gen: gen_diger, weight: 1 },
        Kind { name: "sign", props: &["C13"], check: ck_sign, gen: gen_sign, weight: 1 },
        Kind { name: "salt", props: &["C21"], check: ck_salt, gen: gen_salt, weight: 2 },
        Kind { name: "create", props: &["C21"], check: ck_create, gen: gen_create, weight: 1 },
    ]
}
