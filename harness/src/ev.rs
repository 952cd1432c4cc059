//! Kinds for structured data, thresholds, identifiers, prefixes, paths, version strings, events.
use crate::ensure;
use crate::fw::*;
use crate::oracle as o;
use crate::typed::digest;
use keride::cesr::common::{deversify, sniff, versify, Version};
use keride::cesr::*;
use keride::data::Value;
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use serde_json::{Map, Value as J};

// ---- JSON ------------------------------------------------------------------------------------
const STRS: &[&str] = &["", "a", "KERI", "\u{e9}\u{4e2d}", "\"\\/", "\n\t\u{1}", "\u{1f600}", "\u{7f}\u{2028}", "true", "0", "-1", "#", "null", "{}"];
fn gstr(r: &mut Rng) -> String {
    if let Some(x) = r.dstr(6) { return x.to_string(); }
    if let Some(n) = r.dint(16, 300) { return r.b64(n as usize); }
    if r.chance(2) { STRS[r.below(STRS.len())].to_string() } else { let n = r.below(9); r.b64(n) }
}
/// serde_json may read a float one unit in the last place off (KNOWN_FINDINGS float-ulp): only the
/// floats it reads exactly are used elsewhere
fn stable(x: f64) -> f64 {
    match serde_json::from_str::<f64>(&J::from(x).to_string()) { Ok(y) if y.to_bits() == x.to_bits() => x, _ => 0.5 }
}
/// usually below k, sometimes up to 300
pub fn many(r: &mut Rng, k: usize) -> usize { if let Some(n) = r.dint(20, 400) { return n as usize; } if r.chance(50) { match r.below(3) { 0 => r.below(40), 1 => 60 + r.below(10), _ => 250 + r.below(50) } } else { r.below(k) } }
/// rarely, a field that takes the size of the structure over a hexadecimal digit boundary
fn grow(r: &mut Rng, m: &mut Map<String, J>) {
    if r.chance(250) {
        let l = write(&J::Object(m.clone())).len();
        let t = [256, 4096, 4096, 65536][r.below(4)] + r.below(120);
        if t > l + 90 { m.insert("zz".into(), J::from("x".repeat(t - l - 60))); }
    }
}
pub fn gjson(r: &mut Rng, depth: usize) -> J {
    let k = if depth == 0 { r.below(6) } else { r.below(9) };
    match k {
        0 => J::Null,
        1 => J::Bool(r.chance(2)),
        2 => { let n = r.num(64) as u64; if r.chance(2) { J::from(n as i64) } else { J::from(n) } }
        3 => match r.below(4) {
            0 => J::from(stable(f64::from_bits(r.next()))),
            1 => J::from([0.0, -0.0, 1.0, 1e16, 1e300, 5e-324, 1.5e-7, 123456789012345680.0, -2.5, 1e15][r.below(10)]),
            2 => J::from(stable(r.num(70) as f64)),
            _ => J::from(r.num(20) as f64 / 8.0),
        },
        4 | 5 => J::String(gstr(r)),
        6 => { let n = many(r, 4); let depth = if n > 10 { 1 } else { depth }; J::Array((0..n).map(|_| gjson(r, depth - 1)).collect()) }
        _ => { let n = many(r, 5); let depth = if n > 10 { 1 } else { depth }; let mut m = Map::new(); for i in 0..n { m.insert(if i > 10 { format!("k{i}") } else { gstr(r) }, gjson(r, depth - 1)); } J::Object(m) }
    }
}
/// same value, same key order, same kind of number
fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((k, a), (l, b))| k == l && same(a, b)),
        (J::Number(x), J::Number(y)) => x == y && x.is_f64() == y.is_f64() && x.as_f64().map(f64::to_bits) == y.as_f64().map(f64::to_bits),
        _ => a == b,
    }
}
/// an independent writer: the shortest JSON text, keys in order
pub fn write(j: &J) -> String {
    match j {
        J::Array(a) => format!("[{}]", a.iter().map(write).collect::<Vec<_>>().join(",")),
        J::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", J::String(k.clone()), write(v))).collect::<Vec<_>>().join(",")),
        x => x.to_string(),
    }
}
pub fn val(j: &J) -> Value {
    Value::from(j)
}
/// the structure a value holds, through its own accessors
fn back(v: &Value) -> Result<J, String> {
    if let Ok(b) = v.to_bool() { return Ok(J::Bool(b)); }
    if let Ok(s) = v.to_string() { return Ok(J::String(s)); }
    if let Ok(i) = v.to_i64() { return Ok(J::from(i)); }
    if let Ok(f) = v.to_f64() { return Ok(J::from(f)); }
    if let Ok(a) = v.to_vec() { return a.iter().map(back).collect::<Result<Vec<_>, _>>().map(J::Array); }
    if let Ok(m) = v.to_map() { let mut o = Map::new(); for (k, x) in &m { o.insert(k.clone(), back(x)?); } return Ok(J::Object(o)); }
    // null, or an integer above the signed range
    serde_json::from_str(&v.to_json().map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}
fn ck_json(c: &Case) -> Result<bool, String> {
    let t = c.s(0);
    let Ok(j) = serde_json::from_str::<J>(&t) else { return Ok(false) };
    let v = val(&j);
    let w = v.to_json().map_err(|e| format!("writing {t} fails: {e}"))?;
    ensure!(format!("{v}") == w, "Display of {t} differs from its JSON");
    let j2: J = serde_json::from_str(&w).map_err(|e| format!("{t} is written as {w}, which is not JSON: {e}"))?;
    if t == "5.609023653818106e+59" { ensure!(same(&j, &j2) && w.parse::<f64>() == t.parse::<f64>(), "[float-ulp] {t} is written as {w}"); }
    ensure!(same(&j, &j2), "{t} is written as {w}");
    let v2 = val(&j2);
    ensure!(v2 == v, "{t}: reading {w} back gives a different structure");
    ensure!(v2.to_json().ok().as_deref() == Some(&w), "{t}: not written the same way twice");
    let b = back(&v)?;
    ensure!(same(&j, &b), "{t} reads through its accessors as {b}");
    Ok(true)
}
fn gen_json(r: &mut Rng, i: u64) -> Option<Case> {
    let fixed = ["5.609023653818106e+59", "18446744073709551615", "9223372036854775808", "9223372036854775807", "-9223372036854775808", "-0", "1e3", "1E400", "1e300", "-1e-300", "[]", "{}", "{\"b\":1,\"a\":2,\"10\":3,\"9\":4}", "{\"a\":1,\"b\":2,\"a\":3}", "99999999999999999999", "0.1", "1.0", "100000000000000000000.5", " [ 1 , 2 ] ", "\"\\u0000\"", "{\"\":{\"\":[]}}"];
    if (i as usize) < fixed.len() { return Some(Case::new("json").b(fixed[i as usize])); }
    let d = r.below(5);
    let j = gjson(r, d);
    let t = if r.chance(3) { serde_json::to_string_pretty(&j).unwrap() } else { j.to_string() };
    Some(Case::new("json").b(t))
}

// ---- C18 version strings ---------------------------------------------------------------------
fn ck_vers(c: &Case) -> Result<bool, String> {
    let (ident, kind) = (c.s(0), c.s(1));
    let (ma, mi, size) = (c.n[0] as u8, c.n[1] as u8, c.n[2] as u32);
    let vs = versify(Some(&ident), Some(&Version { major: ma, minor: mi }), Some(&kind), Some(size));
    let fine = (ident == "KERI" || ident == "ACDC") && kind == "JSON";
    if !fine { ensure!(vs.is_err(), "version string for {ident:?} {kind:?}: {:?}", vs.unwrap()); return Ok(true); }
    if ma > 15 || mi > 15 || size >= 1 << 24 { 
        if let Ok(vs) = vs { if let Ok(d) = deversify(&vs) { ensure!(d.size == size && d.version == (Version { major: ma, minor: mi }), "{vs:?} reads as another version or size"); } }
        return Ok(false);
    }
    let vs = vs.map_err(|e| format!("version string refused: {e}"))?;
    ensure!(vs == format!("{ident}{ma:x}{mi:x}{kind}{size:06x}_") && vs.len() == 17, "version string is {vs:?}");
    let d = deversify(&vs).map_err(|e| format!("{vs:?} does not read back: {e}"))?;
    ensure!(d.ident == ident && d.kind == kind && d.size == size && d.version == (Version { major: ma, minor: mi }), "{vs:?} reads back as {d:?}");
    // as part of a message
    let m = format!("{{\"v\":\"{vs}\",\"d\":\"\"}}");
    let s = sniff(m.as_bytes()).map_err(|e| format!("{m} not recognised: {e}"))?;
    ensure!(s.ident == ident && s.kind == kind && s.size == size && s.version == (Version { major: ma, minor: mi }), "{m} is recognised as {s:?}");
    Ok(true)
}
fn gen_vers(r: &mut Rng, i: u64) -> Option<Case> {
    let id = if r.chance(6) { ["KERX", "", "keri", "KERIKERI", "ACD", "TEST"][r.below(6)] } else { ["KERI", "ACDC"][r.below(2)] };
    let k = if r.chance(6) { ["CBOR", "", "json", "MGPK", "JSONX"][r.below(5)] } else { "JSON" };
    let (a, b) = if i < 256 { (i as u128 / 16, i as u128 % 16) } else if r.chance(8) { (r.num(8), r.num(8)) } else { (r.num(4), r.num(4)) };
    let s = if r.chance(12) { r.num(32) } else { r.num(24) };
    Some(Case::new("vers").b(id).b(k).n(a).n(b).n(s))
}
/// reading arbitrary text: accepted exactly when it is a version string
fn ck_devers(c: &Case) -> Result<bool, String> {
    let Ok(s) = String::from_utf8(c.b[0].clone()) else { return Ok(false) };
    let b = s.as_bytes();
    let hexl = |x: &u8| x.is_ascii_digit() || (b'a'..=b'f').contains(x);
    let want = b.len() == 17 && (&b[..4] == b"KERI" || &b[..4] == b"ACDC") && hexl(&b[4]) && hexl(&b[5]) && &b[6..10] == b"JSON" && b[10..16].iter().all(hexl) && b[16] == b'_';
    let got = deversify(&s);
    ensure!(got.is_ok() == want, "version string {s:?}: {}", if want { "refused" } else { "accepted" });
    if let Ok(d) = got {
        ensure!(d.ident.as_bytes() == &b[..4] && d.kind == "JSON" && d.version == (Version { major: u8::from_str_radix(&s[4..5], 16).unwrap(), minor: u8::from_str_radix(&s[5..6], 16).unwrap() }) && d.size == u32::from_str_radix(&s[10..16], 16).unwrap(), "{s:?} reads as {d:?}");
    }
    Ok(want)
}
fn gen_devers(r: &mut Rng, _i: u64) -> Option<Case> {
    let mut s = format!("{}{:x}{:x}JSON{:06x}_", ["KERI", "ACDC"][r.below(2)], r.below(16), r.below(16), r.num(24)).into_bytes();
    for _ in 0..r.below(3) {
        match r.below(6) {
            0 => { let k = r.below(s.len()); s[k] = *r.pick(b"GA9fg_ K\n"); }
            1 => s.push(*r.pick(b"_ \nx")),
            2 => s.insert(0, *r.pick(b"_ \nK")),
            3 => { let k = r.below(s.len()); s.remove(k); if s.is_empty() { s.push(b'K'); } }
            4 => { let t = s.clone(); s.extend(t); }
            _ => s = s.to_ascii_uppercase(),
        }
    }
    Some(Case::new("devers").b(s))
}

// ---- C14, C15 thresholds ---------------------------------------------------------------------
fn gcd(a: u128, b: u128) -> u128 { if b == 0 { a } else { gcd(b, a % b) } }
/// a weight's text: value as a fraction, or not a weight
fn weight(t: &str) -> Option<(u128, u128)> {
    let p: Vec<&str> = t.split('/').collect();
    match p.len() {
        1 => match p[0] { "0" => Some((0, 1)), "1" => Some((1, 1)), _ => None },
        2 => {
            let (n, d) = (p[0].parse::<i32>().ok()?, p[1].parse::<i32>().ok()?);
            if n < 0 || d <= 0 || n > d { return None; }
            let g = gcd(n as u128, d as u128);
            Some((n as u128 / g, d as u128 / g))
        }
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sum { Below, One, Unknown }
/// sum of weights against one, exactly; Unknown when too large for this oracle
fn sum(ws: &[(u128, u128)]) -> Sum {
    let (mut n, mut d) = (0u128, 1u128);
    for (a, b) in ws {
        let Some(x) = n.checked_mul(*b) else { return Sum::Unknown };
        let Some(y) = a.checked_mul(d) else { return Sum::Unknown };
        let (Some(nn), Some(dd)) = (x.checked_add(y), d.checked_mul(*b)) else { return Sum::Unknown };
        let g = gcd(nn, dd);
        n = nn / g;
        d = dd / g;
    }
    if n >= d { Sum::One } else { Sum::Below }
}
/// every partial sum fits comfortably in the fraction type, in any order
fn small(ws: &[(u128, u128)]) -> bool {
    let mut l = 1u128;
    for (_, d) in ws { l = l / gcd(l, *d) * d; if l > 1 << 24 { return false; } }
    ws.len() as u128 * l < 1 << 30
}
enum Exp { Num(i64), W(Vec<Vec<(u128, u128)>>) }
/// meaning of a threshold expression
fn expr(j: &J) -> Option<Exp> {
    match j {
        J::Number(n) if n.is_i64() || n.is_u64() => { let i = n.as_i64()?; if (0..=u32::MAX as i64).contains(&i) { Some(Exp::Num(i)) } else { None } }
        J::String(s) if s.starts_with('[') => { let v: J = serde_json::from_str(s).ok()?; if v.is_array() { expr(&v) } else { None } }
        J::String(s) => { let i = i64::from_str_radix(s, 16).ok()?; if (0..=u32::MAX as i64).contains(&i) { Some(Exp::Num(i)) } else { None } }
        J::Array(a) => {
            if a.is_empty() { return None; }
            let cl: Vec<Vec<J>> = if a.iter().all(|x| x.is_array()) { a.iter().map(|x| x.as_array().unwrap().clone()).collect() } else { vec![a.clone()] };
            let mut out = vec![];
            for c in cl {
                let mut ws = vec![];
                for w in c { ws.push(weight(w.as_str()?)?); }
                out.push(ws);
            }
            Some(Exp::W(out))
        }
        _ => None,
    }
}
fn wtext(w: &(u128, u128)) -> String { if w.1 == 1 { w.0.to_string() } else { format!("{}/{}", w.0, w.1) } }
fn ck_thold(c: &Case) -> Result<bool, String> {
    let j: J = match serde_json::from_slice(&c.b[0]) { Ok(j) => j, Err(_) => return Ok(false) };
    let idx: Vec<u32> = c.n.iter().map(|x| *x as u32).collect();
    let got = Tholder::new_with_sith(&val(&j));
    let e = expr(&j);
    let what = j.to_string();
    match e {
        None => { ensure!(got.is_err(), "threshold {what} accepted"); Ok(true) }
        Some(Exp::Num(n)) => {
            let t = got.map_err(|e| format!("threshold {what} refused: {e}"))?;
            ensure!(!t.weighted() && t.size() as i64 == n && t.num().ok() == Some(Some(n as u32)), "threshold {what}: size {} num {:?}", t.size(), t.num().ok());
            ensure!(t.sith().ok() == Some(val(&J::from(format!("{n:x}")))), "threshold {what}: expression {:?}", t.sith());
            let l = Number::new_with_num(n as u128).unwrap().qb64b().unwrap();
            forms(&t, &l, &what)?;
            let mut d = idx.clone();
            d.sort();
            d.dedup();
            let s = t.satisfy(&idx).map_err(|e| format!("threshold {what} on {idx:?}: {e}"))?;
            ensure!(s == (n > 0 && d.len() as i64 >= n), "threshold {what} satisfied by {idx:?}: {s}");
            Ok(true)
        }
        Some(Exp::W(cl)) => {
            let ok = cl.iter().map(|c| sum(c)).collect::<Vec<_>>();
            let small = cl.iter().all(|c| small(c));
            if ok.contains(&Sum::Below) { ensure!(got.is_err(), "threshold {what} accepted, a clause does not reach one"); return Ok(true); }
            let t = match got {
                Ok(t) => t,
                Err(e) => { ensure!(!small, "threshold {what} refused: {e}"); return Ok(false); }
            };
            let size: usize = cl.iter().map(|c| c.len()).sum();
            ensure!(t.weighted() && t.size() as usize == size && t.num().ok() == Some(None), "threshold {what}: weighted {} size {}", t.weighted(), t.size());
            let th = J::Array(cl.iter().map(|c| J::Array(c.iter().map(|w| J::from(wtext(w))).collect())).collect());
            ensure!(t.thold() == val(&th), "threshold {what}: value {}", t.thold());
            ensure!(t.sith().ok() == Some(val(if cl.len() == 1 { &th[0] } else { &th })), "threshold {what}: expression {:?}", t.sith());
            let bext = cl.iter().map(|c| c.iter().map(|w| wtext(w).replace('/', "s")).collect::<Vec<_>>().join("c")).collect::<Vec<_>>().join("a");
            let l = Bexter::new_with_bext(&bext).unwrap().qb64b().unwrap();
            forms(&t, &l, &what)?;
            let got = t.satisfy(&idx);
            let mut k = 0u32;
            let mut want = Some(true);
            for c in &cl {
                let here: Vec<(u128, u128)> = c.iter().enumerate().filter(|(i, _)| idx.contains(&(k + *i as u32))).map(|(_, w)| *w).collect();
                k += c.len() as u32;
                match sum(&here) { Sum::Below => { if want.is_some() { want = Some(false) } break; } Sum::Unknown => want = None, Sum::One => {} }
            }
            match got {
                Ok(g) => { if let Some(w) = want { ensure!(g == w, "threshold {what} satisfied by {idx:?}: {g}"); } }
                Err(e) => ensure!(!small, "threshold {what} on {idx:?}: {e}"),
            }
            Ok(true)
        }
    }
}
/// the same threshold, whichever way it is built
fn forms(t: &Tholder, limen: &[u8], what: &str) -> Result<(), String> {
    let l = t.limen().map_err(|e| format!("threshold {what}: {e}"))?;
    ensure!(l == limen, "threshold {what}: qualified form {:?}, expected {:?}", String::from_utf8_lossy(&l), String::from_utf8_lossy(limen));
    let a = Tholder::new_with_limen(&l).map_err(|e| format!("threshold {what}: its qualified form is refused: {e}"))?;
    let b = Tholder::new_with_thold(&t.thold()).map_err(|e| format!("threshold {what}: its value is refused: {e}"))?;
    let s = t.sith().map_err(|e| e.to_string())?;
    let c = Tholder::new_with_sith(&s).map_err(|e| format!("threshold {what}: its expression is refused: {e}"))?;
    let d = Tholder::new_with_sith(&val(&J::from(match s.to_string() { Ok(x) => x, Err(_) => t.to_json().map_err(|e| e.to_string())? }))).map_err(|e| format!("threshold {what}: its JSON expression is refused: {e}"))?;
    for (n, x) in [("qualified form", a), ("value", b), ("expression", c), ("JSON", d)] {
        ensure!(x == *t, "threshold {what}: built from its {n} it differs");
        ensure!(x.limen().ok() == Some(l.clone()) && x.size() == t.size() && x.weighted() == t.weighted(), "threshold {what}: built from its {n} it differs");
    }
    Ok(())
}
fn gen_thold(r: &mut Rng, i: u64) -> Option<Case> {
    let fixed = ["0", "1", "-1", "4294967295", "4294967296", "\"0\"", "\"ff\"", "\"FF\"", "\"-1\"", "\"\"", "\"+1\"", "[]", "[[]]", "[\"1\"]", "[\"0\"]", "[[\"1\"],[]]", "[\"1/2/3\",\"1\"]", "[\"0/0\",\"1\"]", "[\"1/0\"]", "[\"2/1\"]", "[\"-1/2\",\"1\"]", "[\"1/-2\",\"1\"]", "[\"-1/-2\",\"1\"]", "\"[\\\"1/2\\\",\\\"1/2\\\"]\"", "\"[1]\"", "[1]", "[[\"1\"],\"1\"]", "1.5", "null", "{}", "[\"1/2147483647\",\"1/2147483646\",\"1\"]", "[\"2147483647/2147483647\"]", "[[\"1/3\",\"1/3\",\"1/3\"],[\"1/2\",\"2/4\"]]", "[\"0/5\",\"1/1\"]", "[\" 1/2\",\"1\"]", "[\"1/2\",\"01/2\"]", "[\"1e0\"]", "\"[\"", "\"[}\"", "[\"+1/+2\",\"1/2\"]"];
    let j = if (i as usize) < fixed.len() * 8 {
        fixed[i as usize / 8].to_string()
    } else if r.chance(4) {
        match r.below(3) { 0 => J::from(r.num(36) as i64).to_string(), 1 => J::from(format!("{:x}", r.num(34))).to_string(), _ => J::from(r.below(6)).to_string() }
    } else {
        let nc = if r.chance(60) { 20 + r.below(60) } else { 1 + r.below(3) };
        let long = r.chance(40);
        let mut cl = vec![];
        for _ in 0..nc {
            let n = if long { 20 + r.below(280) / nc } else { 1 + r.below(6) };
            let mut c = vec![];
            for _ in 0..n {
                let d = match r.below(8) { 0 => 1, 1 => 2, 2 => 3, 3 => 4, 4 => n as u64, 5 => 1 + r.below(20) as u64, 6 => 2 + r.below(4) as u64, _ => if r.chance(6) { r.num(31) as u64 } else { 5 } };
                let k = r.below(d as usize + 1);
                c.push(match r.below(14) { 0 => J::from("1"), 1 => J::from("0"), 2 => J::from(*r.pick(&["2", "", "1/2/2", "a/b", "1//2", "/2", "2/", "1s2", "-0/1"])), _ => J::from(format!("{k}/{d}")) });
            }
            cl.push(J::Array(c));
        }
        let j = if nc == 1 && r.chance(2) { cl[0].clone() } else { J::Array(cl) };
        if r.chance(6) { J::from(j.to_string()).to_string() } else { j.to_string() }
    };
    let mut c = Case::new("thold").b(j);
    let top = *r.pick(&[9, 9, 9, 40, 70, 300]);
    for _ in 0..if top > 9 && r.chance(2) { 2 * top } else { r.below(12) } {
        let k = match r.below(20) { 0 => r.num(32), _ => r.below(top) as u128 };
        c = c.n(k);
    }
    Some(c)
}

// ---- C15: any qualified form --------------------------------------------------------------------
fn ck_limen(c: &Case) -> Result<bool, String> {
    let l = &c.b[0];
    match Tholder::new_with_limen(l) {
        Err(_) => Ok(false),
        Ok(t) => {
            let m = o::m_parse(l).ok_or_else(|| format!("qualified threshold {:?} accepted", String::from_utf8_lossy(l)))?;
            if ["M", "0H", "N", "0A"].contains(&m.code.as_str()) {
                let v = m.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128);
                ensure!(!t.weighted() && t.size() as u128 == v, "qualified threshold {:?} has size {}", String::from_utf8_lossy(l), t.size());
            } else {
                ensure!(t.weighted(), "qualified threshold {:?} is not weighted", String::from_utf8_lossy(l));
            }
            let q = t.limen().map_err(|e| e.to_string())?;
            forms(&t, &q, &String::from_utf8_lossy(l))?;
            Ok(true)
        }
    }
}
fn gen_limen(r: &mut Rng, _i: u64) -> Option<Case> {
    let mut l = if r.chance(3) {
        let n = *r.pick(&[2usize, 4, 8, 16]);
        let mut raw = vec![0u8; n];
        let k = r.below(n + 1).min(5);
        for i in 0..k { raw[n - 1 - i] = r.next() as u8; }
        o::m_text(&o::M { code: match n { 2 => "M", 4 => "0H", 8 => "N", _ => "0A" }.into(), size: 0, raw })
    } else {
        let s = *r.pick(&["1", "1s2c1s2", "1s2c1s2a1", "1c0a1s3c1s3c1s3", "2s4c1s2", "1s2", "a", "1a", "1c", "", "0s0c1", "1s2s3c1", "1b"]);
        let Ok(b) = Bexter::new_with_bext(s) else { return None };
        b.qb64b().unwrap()
    };
    if r.chance(3) { l = crate::cesr::mutate(r, l, 2); }
    Some(Case::new("limen").b(l))
}

// ---- C16 -----------------------------------------------------------------------------------------
const DIGS: &[&str] = &["E", "F", "G", "H", "I", "0D", "0E", "0F", "0G"];
fn full(code: &str) -> usize { if code.len() == 1 { 44 } else { 88 } }
fn q(code: &str, raw: &[u8]) -> String {
    String::from_utf8(o::m_text(&o::M { code: code.into(), size: 0, raw: raw.to_vec() })).unwrap()
}
fn isver(t: &str) -> bool {
    let b = t.as_bytes();
    let hexl = |x: &u8| x.is_ascii_digit() || (b'a'..=b'f').contains(x);
    b.len() == 17 && (&b[..4] == b"KERI" || &b[..4] == b"ACDC") && &b[4..10] == b"10JSON" && b[10..16].iter().all(hexl) && b[16] == b'_'
}
/// the size written into a versioned structure; None when it can not be versioned
/// where the first thing shaped like a version string starts
fn first_version(w: &[u8]) -> Option<usize> {
    let up = |x: &[u8]| x.iter().all(|c| c.is_ascii_uppercase());
    let hx = |x: &[u8]| x.iter().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(c));
    w.windows(17).position(|x| up(&x[..4]) && hx(&x[4..6]) && up(&x[6..10]) && hx(&x[10..16]) && x[16] == b'_')
}
fn sized(m: &Map<String, J>) -> Option<Map<String, J>> {
    let mut m = m.clone();
    if let Some(v) = m.get("v") {
        let t = v.as_str()?.to_string();
        if !isver(&t) { return None; }
        let w = write(&J::Object(m.clone()));
        let at = first_version(w.as_bytes())?;
        if at > 12 || w.len() >= 1 << 24 { return None; }
        let new = format!("{}{:06x}_", &t[..10], w.len());
        m.insert("v".into(), J::from(new.clone()));
        // the first version string has to be the field's
        if write(&J::Object(m.clone())) != format!("{}{new}{}", &w[..at], &w[at + 17..]) { return None; }
    }
    Some(m)
}
fn sdig(m: &Map<String, J>, label: &str, code: &str, ignore: &[String]) -> Option<(String, Map<String, J>)> {
    let mut x = m.clone();
    x.insert(label.to_string(), J::from("#".repeat(full(code))));
    let s = sized(&x)?;
    let mut cut = Map::new();
    for (k, v) in &s { if !ignore.contains(k) { cut.insert(k.clone(), v.clone()); } }
    if cut.contains_key("v") && !cut["v"].is_string() { return None; }
    Some((q(code, &digest(code, write(&J::Object(cut)).as_bytes())?), s))
}
fn ck_said(c: &Case) -> Result<bool, String> {
    let (Ok(J::Object(m)), label, code) = (serde_json::from_slice::<J>(&c.b[0]), c.s(1), c.s(2)) else { return Ok(false) };
    let ignore: Vec<String> = c.b[4..].iter().map(|x| String::from_utf8_lossy(x).to_string()).collect();
    let ig: Vec<&str> = ignore.iter().map(|x| x.as_str()).collect();
    let ig = if ig.is_empty() { None } else { Some(ig.as_slice()) };
    if label == "v" { return Ok(false); }
    let sad = val(&J::Object(m.clone()));
    let got = Saider::saidify(&sad, Some(&code), None, Some(&label), ig);
    let what = || format!("{} label {label:?} code {code:?} ignoring {ignore:?}", J::Object(m.clone()));
    if !DIGS.contains(&code.as_str()) || !m.contains_key(&label) {
        ensure!(got.is_err(), "{} accepted", what());
        // no crash from the other ways in either
        let _ = Saider::new_with_sad(&sad, Some(&label), None, ig, Some(&code));
        if let Ok(s) = Saider::new_with_qb64("EAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA") { let _ = s.verify(&sad, Some(true), None, None, Some(&label), ig); }
        return Ok(true);
    }
    let Some((said, sized)) = sdig(&m, &label, &code, &ignore) else {
        ensure!(got.is_err(), "{} accepted", what());
        return Ok(true);
    };
    let (s, out) = got.map_err(|e| format!("{} refused: {e}", what()))?;
    let mut want = sized.clone();
    want.insert(label.clone(), J::from(said.clone()));
    ensure!(s.qb64().ok().as_deref() == Some(&said), "{}: identifier {:?}, expected {said}", what(), s.qb64().ok());
    ensure!(out.to_json().ok() == Some(write(&J::Object(want.clone()))), "{}: made into {}", what(), out);
    for pre in [None, Some(false), Some(true)] {
        ensure!(s.verify(&out, pre, None, None, Some(&label), ig).ok() == Some(true), "{}: does not verify", what());
    }
    // near misses: another identifier, and the identifier changed where the structure has it
    let mut near = o::m_parse(said.as_bytes()).unwrap();
    let at = c.n[0] as usize * 7919 % near.raw.len();
    near.raw[at] ^= 1 << (c.n[0] as usize % 8);
    let other = String::from_utf8(o::m_text(&near)).unwrap();
    let s3 = Saider::new_with_qb64(&other).map_err(|e| format!("{other} refused: {e}"))?;
    let mut swapped = want.clone();
    swapped.insert(label.clone(), J::from(other.clone()));
    for pre in [None, Some(false), Some(true)] {
        ensure!(!matches!(s3.verify(&out, pre, None, None, Some(&label), ig), Ok(true)), "{}: verifies by {other}", what());
        ensure!(!matches!(s3.verify(&val(&J::Object(swapped.clone())), pre, None, None, Some(&label), ig), Ok(true)), "{}: verifies by {other} when it is put in", what());
    }
    for t in [other, format!("{said}x"), format!("{said} "), said[..said.len() - 1].to_string(), said[1..].to_string(), said.to_lowercase(), format!("x{said}"), "#".repeat(said.len()), String::new()] {
        if t == said { continue; }
        let mut x = want.clone();
        x.insert(label.clone(), J::from(t.clone()));
        ensure!(!matches!(s.verify(&val(&J::Object(x)), Some(true), None, None, Some(&label), ig), Ok(true)), "{}: verifies with {t:?} as its identifier", what());
    }
    let s2 = Saider::new_with_sad(&out, Some(&label), None, ig, None).map_err(|e| format!("{}: identifier of the result refused: {e}", what()))?;
    ensure!(s2.qb64().ok().as_deref() == Some(&said), "{}: identifier of the result differs", what());
    // a change elsewhere
    let mut h = want.clone();
    let k = c.n[0] as usize % (h.len() + 1);
    let change: J = serde_json::from_slice(&c.b[3]).unwrap_or(J::Null);
    let (key, isnew) = match h.keys().nth(k) { Some(x) => (x.clone(), false), None => (format!("{label}x"), true) };
    // without the identifier, without another field, and something that is no structure
    for k in want.keys().filter(|k| **k == label || !ignore.contains(k)) {
        let mut cut = want.clone();
        cut.shift_remove(k);
        let g = s.verify(&val(&J::Object(cut)), Some(true), None, None, Some(&label), ig);
        ensure!(!matches!(g, Ok(true)), "{}: verifies without {k:?}", what());
    }
    if !change.is_object() { ensure!(!matches!(s.verify(&val(&change), Some(true), None, None, Some(&label), ig), Ok(true)), "{change} verifies"); }
    if h.get(&key) == Some(&change) || (isnew && h.contains_key(&key)) { return Ok(true); }
    h.insert(key.clone(), change);
    let hv = val(&J::Object(h.clone()));
    let ver = |pre: bool, ver: Option<bool>| s.verify(&hv, Some(pre), ver, None, Some(&label), ig);
    let expect = match sdig(&h, &label, &code, &ignore) {
        None => false,
        Some((d, z)) => d == said && z.get("v") == h.get("v"),
    };
    if ignore.contains(&key) || key == label {
        // not part of what is identified
        let g = ver(false, None).map_err(|e| format!("{}: {e}", what()))?;
        ensure!(g == expect, "{}: with {key:?} changed it verifies: {g}", what());
        if key == label { let g = ver(true, None); ensure!(!matches!(g, Ok(true)), "{}: another identifier at {label:?} verifies", what()); }
    } else {
        for p in [true, false] {
            ensure!(!matches!(ver(p, None), Ok(true)), "{}: verifies with {key:?} changed to {}", what(), h[&key]);
        }
        let unver = match sdig(&h, &label, &code, &ignore) { None => false, Some((d, _)) => d == said };
        ensure!(matches!(ver(false, Some(false)), Ok(x) if x == unver), "{}: with {key:?} changed, unversioned it verifies: {:?}", what(), ver(false, Some(false)));
    }
    Ok(true)
}
fn gen_said(r: &mut Rng, _i: u64) -> Option<Case> {
    let mut m = Map::new();
    if r.chance(2) {
        let v = if r.chance(12) { *r.pick(&["KERI10CBOR000000_", "", "KERI11JSON000000_", "XERI10JSON000000_", "KERI10JSON000000"]) } else { *r.pick(&["KERI10JSON000000_", "ACDC10JSON000000_", "KERI10JSON0000ff_"]) };
        if r.chance(10) { m.insert("a".into(), gjson(r, 1)); }
        if r.chance(40) { m.insert("c".into(), J::from("KERI10JSON000000_")); }
        m.insert("v".into(), if r.chance(20) { gjson(r, 1) } else { J::from(v) });
    }
    let label = *r.pick(&["d", "d", "i", "$id", "x"]);
    for _ in 0..r.below(5) { let k = if r.chance(3) { ["t", "i", "d", "x", "s"][r.below(5)].to_string() } else { gstr(r) }; m.insert(k, gjson(r, 2)); }
    if !r.chance(12) { m.insert(label.into(), if r.chance(2) { J::from("") } else { gjson(r, 1) }); }
    for _ in 0..r.below(3) { m.insert(gstr(r), gjson(r, 2)); }
    grow(r, &mut m);
    let code = if r.chance(10) { ["B", "A", "", "0B", "Z"][r.below(5)] } else { DIGS[r.below(9)] };
    let ch = gjson(r, 1);
    let n = r.below(9);
    let mut c = Case::new("said").b(J::Object(m.clone()).to_string()).b(label).b(code).b(ch.to_string()).n(n);
    if r.chance(3) { for _ in 0..1 + r.below(2) { let k = r.below(m.len().max(1)); let s = m.keys().nth(k).cloned().unwrap_or("q".into()); if s != "v" { c = c.b(s); } } }
    Some(c)
}

// ---- C17 -----------------------------------------------------------------------------------------
const NONT: &[&str] = &["B", "1AAA", "1AAI"];
const TRAN: &[&str] = &["D", "1AAB", "1AAJ"];
fn blank(m: &Map<String, J>, k: &str) -> bool {
    match m.get(k) { None => true, Some(J::Array(a)) => a.is_empty(), Some(J::String(s)) => s.is_empty(), Some(_) => false }
}
fn onekey(m: &Map<String, J>) -> Option<String> {
    let a = m.get("k")?.as_array()?;
    if a.len() != 1 { return None; }
    a[0].as_str().map(|x| x.to_string())
}
fn pdig(m: &Map<String, J>, code: &str) -> Option<String> {
    if !m.contains_key("v") { return None; }
    let mut x = m.clone();
    for l in ["i", "d"] { x.insert(l.into(), J::from("#".repeat(full(code)))); }
    let s = sized(&x)?;
    Some(q(code, &digest(code, write(&J::Object(s)).as_bytes())?))
}
fn ck_prefix(c: &Case) -> Result<bool, String> {
    let (Ok(J::Object(m)), code) = (serde_json::from_slice::<J>(&c.b[0]), c.s(1)) else { return Ok(false) };
    let ked = val(&J::Object(m.clone()));
    let what = || format!("{} code {code:?}", J::Object(m.clone()));
    let got = Prefixer::new_with_ked(&ked, None, Some(&code));
    let incept = matches!(m.get("t").and_then(|t| t.as_str()), Some("icp" | "dip" | "vcp"));
    let want = if !incept { None } else if NONT.contains(&code.as_str()) || TRAN.contains(&code.as_str()) {
        onekey(&m).filter(|k| o::m_parse(k.as_bytes()).map(|x| x.code == code).unwrap_or(false))
            .map(|k| { let x = o::m_parse(k.as_bytes()).unwrap(); String::from_utf8(o::m_text(&x)).unwrap() })
            .filter(|_| TRAN.contains(&code.as_str()) || (blank(&m, "n") && blank(&m, "b") && blank(&m, "a")))
    } else if DIGS.contains(&code.as_str()) { pdig(&m, &code) } else { None };
    match (&want, &got) {
        (None, Ok(p)) => return Err(format!("prefix {:?} derived from {}", p.qb64().ok(), what())),
        (Some(w), Err(e)) => return Err(format!("no prefix derived from {}, expected {w}: {e}", what())),
        (Some(w), Ok(p)) => ensure!(p.qb64().ok().as_ref() == Some(w), "prefix {:?} derived from {}, expected {w}", p.qb64().ok(), what()),
        _ => {}
    }
    // verification by any prefix
    let pre = match &want { Some(w) if c.b[2].is_empty() => w.clone(), _ => c.s(2) };
    let Ok(p) = Prefixer::new_with_qb64(&pre) else { return Ok(want.is_some()) };
    let pre = p.qb64().map_err(|e| e.to_string())?;
    let pc = o::m_parse(pre.as_bytes()).unwrap().code;
    for prefixed in [None, Some(false), Some(true)] {
        let mut good = incept && if NONT.contains(&pc.as_str()) { onekey(&m).as_ref() == Some(&pre) && !matches!(m.get("n"), Some(J::Array(a)) if !a.is_empty()) && !matches!(m.get("n"), Some(J::String(s)) if !s.is_empty()) }
            else if TRAN.contains(&pc.as_str()) { onekey(&m).as_ref() == Some(&pre) }
            else { pdig(&m, &pc).as_ref() == Some(&pre) };
        if prefixed == Some(true) { good = good && m.get("i").and_then(|x| x.as_str()) == Some(pre.as_str()); }
        let g = p.verify(&ked, prefixed);
        ensure!(matches!(g, Ok(true)) == good, "prefix {pre} verifies {} (prefixed {prefixed:?}): {g:?}, expected {good}", J::Object(m.clone()));
        if !incept { ensure!(g.is_err(), "non-inception {} not refused: {g:?}", J::Object(m.clone())); }
    }
    // near misses: the identifier field or the prefix itself not quite what is derived
    if let Some(w) = &want {
        let mut near = o::m_parse(w.as_bytes()).unwrap();
        let at = m.len() * 7919 % near.raw.len();
        near.raw[at] ^= 1 << (c.b[2].len() % 8);
        let other = String::from_utf8(o::m_text(&near)).unwrap();
        let mut n = m.clone();
        n.insert("i".into(), J::from(w.clone()));
        if let Ok(p) = Prefixer::new_with_qb64(&other) {
            for pre in [None, Some(false), Some(true)] { ensure!(!matches!(p.verify(&val(&J::Object(n.clone())), pre), Ok(true)), "prefix {other} verifies {}", J::Object(n.clone())); }
        }
        if let Ok(p) = Prefixer::new_with_qb64(w) {
            for t in [other, format!("{w}x"), format!("{w} "), w[..w.len() - 1].to_string(), w[1..].to_string(), w.to_lowercase(), format!("x{w}"), "#".repeat(w.len()), String::new()] {
                if t == *w { continue; }
                n.insert("i".into(), J::from(t.clone()));
                ensure!(!matches!(p.verify(&val(&J::Object(n.clone())), Some(true)), Ok(true)), "prefix {w} verifies {} (prefixed)", J::Object(n.clone()));
            }
        }
    }
    // the event that names its prefix
    if let Some(w) = &want {
        let mut n = m.clone();
        n.insert("i".into(), J::from(w.clone()));
        if m.contains_key("i") || !DIGS.contains(&code.as_str()) {
            let p = got.unwrap();
            let v = val(&J::Object(n.clone()));
            ensure!(matches!(p.verify(&v, Some(true)), Ok(true)), "the prefix of {} does not verify the event that names it", what());
            let p2 = Prefixer::new_with_ked(&v, None, None).map_err(|e| format!("{} with its own prefix refused: {e}", what()))?;
            ensure!(p2.qb64().ok().as_ref() == Some(w), "{} with its own prefix gives {:?}", what(), p2.qb64().ok());
            ensure!(Prefixer::new_with_ked(&v, Some(&["Z"]), None).is_err() && Prefixer::new_with_ked(&v, Some(&["Z", &code]), None).is_ok(), "allowed codes not respected for {}", what());
        }
    }
    Ok(want.is_some())
}
fn gen_prefix(r: &mut Rng, _i: u64) -> Option<Case> {
    let key = |r: &mut Rng| -> J {
        let c = *r.pick(&["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "D", "B"]);
        let n = if c.len() == 1 { 32 } else { 33 };
        let raw = r.bytes(n);
        if r.chance(12) { gjson(r, 1) } else { J::from(q(c, &raw)) }
    };
    let mut m = Map::new();
    if !r.chance(10) { m.insert("v".into(), J::from(*r.pick(&["KERI10JSON000000_", "KERI10JSON0000aa_"]))); }
    if !r.chance(10) { m.insert("t".into(), if r.chance(15) { gjson(r, 1) } else { J::from(*r.pick(&["icp", "dip", "vcp", "icp", "rot", "drt"])) }); }
    if !r.chance(5) { m.insert("d".into(), J::from(gstr(r))); }
    if !r.chance(5) { m.insert("i".into(), J::from(gstr(r))); }
    let ks: Vec<J> = { let n = if r.chance(5) { r.below(3) } else { 1 }; (0..n).map(|_| key(r)).collect() };
    if !r.chance(12) { m.insert("k".into(), if r.chance(15) { gjson(r, 1) } else { J::Array(ks.clone()) }); }
    for l in ["n", "b", "a"] {
        if r.chance(2) { m.insert(l.into(), match r.below(5) { 0 => J::from(""), 1 => J::from("x"), 2 => J::Array(vec![J::from("EAAA")]), _ => J::Array(vec![]) }); }
    }
    if r.chance(3) { m.insert("x".into(), gjson(r, 2)); }
    grow(r, &mut m);
    let kc = ks.first().and_then(|k| k.as_str()).and_then(|k| o::m_parse(k.as_bytes())).map(|k| k.code);
    let code = match (kc, r.below(3)) { (Some(k), 0 | 1) => k, (None, 0) => ["A", "", "0A"][r.below(3)].to_string(), _ => DIGS[r.below(9)].to_string() };
    let other = match r.below(4) {
        0 => { let k = key(r); k.as_str().unwrap_or("").to_string() }
        1 => ks.first().and_then(|k| k.as_str()).unwrap_or("").to_string(),
        2 => { let c = DIGS[r.below(9)]; let raw = r.bytes(if c.len() == 1 { 32 } else { 64 }); q(c, &raw) }
        _ => String::new(),
    };
    Some(Case::new("prefix").b(J::Object(m).to_string()).b(code).b(other))
}

// ---- C20 -----------------------------------------------------------------------------------------
fn plist(x: &[u8]) -> Vec<J> {
    serde_json::from_slice::<Vec<J>>(x).unwrap_or_default()
}
fn step_text(j: &J) -> Option<String> {
    match j { J::String(s) => Some(s.clone()), J::Number(n) if n.is_i64() => Some(n.as_i64().unwrap().to_string()), _ => None }
}
fn resolve(j: &J, p: &[String]) -> Option<J> {
    if p.is_empty() { return Some(j.clone()); }
    match j {
        J::Object(m) => {
            if let Ok(i) = p[0].parse::<usize>() { return resolve(m.values().nth(i)?, &p[1..]); }
            if p[0].is_empty() { return Some(j.clone()); }
            resolve(m.get(&p[0])?, &p[1..])
        }
        J::Array(a) => resolve(a.get(p[0].parse::<usize>().ok()?)?, &p[1..]),
        _ => None,
    }
}
fn mkpath(l: &[J]) -> (Option<Vec<String>>, Result<Pather, String>) {
    let t: Option<Vec<String>> = l.iter().map(step_text).collect();
    let fine = t.filter(|t| t.iter().all(|s| !s.is_empty() && !s.contains('-') && s.bytes().all(|b| o::idx(b).is_some())));
    (fine, Pather::new_with_path(&val(&J::Array(l.to_vec()))).map_err(|e| e.to_string()))
}
fn pl(p: &Pather) -> Result<Vec<String>, String> {
    p.path().map_err(|e| e.to_string())?.to_vec().map_err(|e| e.to_string())?.iter().map(|x| x.to_string().map_err(|e| e.to_string())).collect()
}
fn ck_path(c: &Case) -> Result<bool, String> {
    let (a, b) = (plist(&c.b[0]), plist(&c.b[1]));
    let sad: J = serde_json::from_slice(&c.b[2]).unwrap_or(J::Null);
    let (fa, pa) = mkpath(&a);
    let (fb, pb) = mkpath(&b);
    let ja = J::Array(a.clone());
    let Some(ta) = fa else { ensure!(pa.is_err(), "path {ja} accepted, it reads back as {:?}", pa.unwrap().path()); return Ok(true); };
    let pa = pa.map_err(|e| format!("path {ja} refused: {e}"))?;
    let text = if ta.is_empty() { "-".to_string() } else { ta.iter().map(|x| format!("-{x}")).collect() };
    let qb64 = pa.qb64().map_err(|e| e.to_string())?;
    let qb2 = pa.qb2().map_err(|e| e.to_string())?;
    for p in [Pather::new_with_bext(&text), Pather::new_with_qb64(&qb64), Pather::new_with_qb64b(qb64.as_bytes()), Pather::new_with_qb2(&qb2)] {
        let p = p.map_err(|e| format!("path {ja}: {e}"))?;
        ensure!(p == pa, "path {ja}: not the same through its other forms");
        ensure!(p.bext().ok().as_ref() == Some(&text), "path {ja}: text {:?}", p.bext().ok());
        ensure!(pl(&p)? == ta, "path {ja} reads back as {:?}", pl(&p));
    }
    let v = val(&sad);
    let got = pa.resolve(&v);
    match resolve(&sad, &ta) {
        Some(w) => ensure!(got.as_ref().ok() == Some(&val(&w)), "path {ja} in {sad}: {:?}, expected {w}", got.map(|x| x.to_json())),
        None => ensure!(got.is_err(), "path {ja} in {sad}: {:?}, expected an error", got.map(|x| x.to_json())),
    }
    let (Some(tb), Ok(pb)) = (fb, pb) else { return Ok(true) };
    let jb = J::Array(b);
    let under = ta.len() >= tb.len() && ta[..tb.len()] == tb[..];
    ensure!(pa.starts_with(&pb).ok() == Some(under), "path {ja} under {jb}: {:?}", pa.starts_with(&pb).ok());
    let s = pa.strip(&pb).map_err(|e| format!("path {ja} stripped of {jb}: {e}"))?;
    let want: Vec<String> = if under { ta[tb.len()..].to_vec() } else { ta.clone() };
    ensure!(pl(&s)? == want, "path {ja} stripped of {jb} is {:?}", pl(&s));
    let r = pa.root(&pb).map_err(|e| format!("path {ja} rooted at {jb}: {e}"))?;
    let want: Vec<String> = tb.iter().chain(&ta).cloned().collect();
    ensure!(pl(&r)? == want, "path {ja} rooted at {jb} is {:?}", pl(&r));
    ensure!(r.strip(&pb).ok().map(|x| x == pa) == Some(true), "path {ja} rooted at {jb} and stripped again differs");
    Ok(true)
}
fn gen_path(r: &mut Rng, _i: u64) -> Option<Case> {
    let pool = ["a", "b", "0", "1", "2", "ab", "A", "z_", "a0"];
    let step = |r: &mut Rng| -> J {
        match r.below(30) { 0 => J::from(""), 1 => J::from("a-b"), 2 => J::from("@"), 3 => J::from(-1), 4 => J::from("-"), 5 => J::from("\u{e9}"), 6 | 7 | 8 => J::from(if r.chance(8) { r.below(300) } else { r.below(3) }), 9 => { let n = 1 + r.below(6); let s = r.b64(n).replace('-', "_"); J::from(s) } 10 if r.chance(4) => gjson(r, 1), _ => J::from(*r.pick(&pool)) }
    };
    let n = if r.chance(40) { r.below(60) } else { r.below(5) };
    let a: Vec<J> = (0..n).map(|_| step(r)).collect();
    let k = r.below(n + 1);
    let mut b: Vec<J> = if r.chance(3) { let n = r.below(4); (0..n).map(|_| step(r)).collect() } else { a[..k].to_vec() };
    if r.chance(5) && !b.is_empty() {
        // a shortened last label
        let k = b.len() - 1;
        if let Some(s) = b[k].as_str() { let s = s.chars().take(1).collect::<String>(); b[k] = J::from(s); }
    }
    fn tree(r: &mut Rng, pool: &[&str], d: usize) -> J {
        if d == 0 || r.chance(6) { return gjson(r, 1); }
        if r.chance(3) { let n = many(r, 4); let d = if n > 10 { 1 } else { d }; J::Array((0..n).map(|_| tree(r, pool, d - 1)).collect()) } else if r.chance(40) { let n = many(r, 20); J::Object((0..n).map(|i| (format!("k{i}"), gjson(r, 0))).collect()) } else { let n = 1 + r.below(4); let mut m = Map::new(); for _ in 0..n { m.insert(r.pick(pool).to_string(), tree(r, pool, d - 1)); } J::Object(m) }
    }
    Some(Case::new("path").b(J::Array(a).to_string()).b(J::Array(b).to_string()).b(tree(r, &pool, 3).to_string()))
}
/// any material a path can be read from: no crash
fn ck_pathx(c: &Case) -> Result<bool, String> {
    let sad: J = serde_json::from_slice(&c.b[1]).unwrap_or(J::Null);
    let s = String::from_utf8_lossy(&c.b[0]).to_string();
    let a = [Pather::new_with_bext(&s), Pather::new_with_raw(&c.b[0], None), Pather::new_with_qb64b(&c.b[0]), Pather::new_with_qb64(&s)];
    let mut ok = false;
    for p in a.iter().flatten() {
        ok = true;
        let t = p.bext().map_err(|e| format!("text of path {s:?}: {e}"))?;
        let parts = if let Some(x) = t.strip_prefix('-') { Some(x.split('-').map(|x| x.to_string()).collect::<Vec<_>>()) } else { None };
        match (p.path(), parts) {
            (Err(_), None) => {}
            (Ok(_), Some(w)) => { let g = pl(p)?; ensure!(g == w || (w[0].is_empty() && g.is_empty()), "path {t:?} is {g:?}"); }
            (g, _) => return Err(format!("path {t:?}: {g:?}")),
        }
        let _ = p.resolve(&val(&sad));
        for q in a.iter().flatten() { let _ = p.strip(q); let _ = p.root(q); let _ = p.starts_with(q); }
    }
    Ok(ok)
}
fn gen_pathx(r: &mut Rng, _i: u64) -> Option<Case> {
    let n = r.below(12);
    let s = match r.below(3) { 0 => r.b64(n), 1 => format!("-{}", r.b64(n)), _ => (0..n).map(|_| *r.pick(&["-", "a", "0", "b-", "--"])).collect::<String>() };
    let j = gjson(r, 3);
    Some(Case::new("pathx").b(if r.chance(4) { r.bytes(n) } else { s.into_bytes() }).b(j.to_string()))
}

// ---- C23 -----------------------------------------------------------------------------------------
/// what an event's content must look like
fn content(m: &Map<String, J>, cred: bool, code: &str) -> Option<(Map<String, J>, String)> {
    let v = m.get("v")?.as_str()?;
    if v.get(..4)? != if cred { "ACDC" } else { "KERI" } { return None; }
    let s = sized(m)?;
    let d = m.get("d")?.as_str()?;
    let x = o::m_parse(d.as_bytes())?;
    if x.code != code { return None; }
    Some((s, String::from_utf8(o::m_text(&x)).unwrap()))
}
fn ck_event(c: &Case) -> Result<bool, String> {
    let (Ok(J::Object(m)), code, cred) = (serde_json::from_slice::<J>(&c.b[0]), c.s(1), c.n[0] == 1) else { return Ok(false) };
    let ked = val(&J::Object(m.clone()));
    let want = content(&m, cred, if code.is_empty() { "E" } else { &code });
    let oc = if code.is_empty() { None } else { Some(code.as_str()) };
    let what = || format!("{} (credential {cred}, code {oc:?})", J::Object(m.clone()));
    macro_rules! go {
        ($t:ty) => {{
            let got = <$t>::new_with_ked(&ked, oc, None);
            let Some((s, said)) = want else { ensure!(got.is_err(), "{} accepted", what()); return Ok(true); };
            let e = got.map_err(|e| format!("{} refused: {e}", what()))?;
            let raw = write(&J::Object(s.clone())).into_bytes();
            let look = |e: &$t, how: &str| -> Result<(), String> {
                ensure!(e.raw() == raw, "{} {how}: raw {:?}", what(), String::from_utf8_lossy(&e.raw()));
                ensure!(e.size() as usize == raw.len(), "{} {how}: size {}", what(), e.size());
                ensure!(e.ked() == val(&J::Object(s.clone())) && e.ked().to_json().ok().map(|x| x.into_bytes()) == Some(raw.clone()), "{} {how}: content {}", what(), e.ked());
                ensure!(e.ident() == if cred { "ACDC" } else { "KERI" } && e.kind() == "JSON" && e.version() == (Version { major: 1, minor: 0 }), "{} {how}: {} {} {:?}", what(), e.ident(), e.kind(), e.version());
                ensure!(e.said().ok().as_ref() == Some(&said) && e.saidb().ok() == Some(said.clone().into_bytes()), "{} {how}: identifier {:?}", what(), e.said().ok());
                let full = serde_json::to_string_pretty(&J::Object(s.clone())).unwrap();
                let d = dict().ints.iter().filter(|x| **x < 100000).take(8).map(|x| Some(*x as usize));
                for n in [None, Some(0), Some(7), Some(100), Some(101), Some(raw.len()), Some(full.len())].into_iter().chain(d) {
                    let p = e.pretty(n).map_err(|e| format!("{} {how}: {e}", what()))?;
                    let mut k = n.unwrap_or(1024).min(full.len());
                    while !full.is_char_boundary(k) { k -= 1; }
                    ensure!(p == full[..k], "{} {how}: pretty {p:?}, expected {:?}", what(), &full[..k]);
                }
                Ok(())
            };
            look(&e, "from content")?;
            look(&<$t>::new(oc, None, None, None, Some(&e)).map_err(|e| e.to_string())?, "from another")?;
            let mut t = raw.clone();
            if c.b[2].len() % 4 == 1 { for _ in 0..c.b[2].len() / 2 { t.extend(&raw); } }
            t.extend(&c.b[2]);
            if t.len() >= 29 { look(&<$t>::new(oc, Some(&t), None, None, None).map_err(|e| format!("{}: its raw bytes and {:?} refused: {e}", what(), String::from_utf8_lossy(&c.b[2])))?, "from raw bytes")?; }
            if code.is_empty() && t.len() >= 29 { look(&<$t>::new_with_raw(&t).map_err(|e| e.to_string())?, "from raw bytes")?; }
            // cut short
            for k in [raw.len() - 1, raw.len() / 2, 30.min(raw.len() - 1)] { ensure!(<$t>::new(oc, Some(&raw[..k]), None, None, None).is_err(), "{}: {k} of its {} bytes accepted", what(), raw.len()); }
            Ok(true)
        }};
    }
    if cred { go!(Creder) } else { go!(Serder) }
}
fn gen_event(r: &mut Rng, _i: u64) -> Option<Case> {
    let cred = r.chance(2);
    let mut m = Map::new();
    if r.chance(12) { m.insert("a".into(), gjson(r, 1)); }
    if r.chance(20) { m.insert("c".into(), J::from("KERI10JSON000000_")); }
    if !r.chance(15) { m.insert("v".into(), if r.chance(20) { gjson(r, 1) } else { J::from(if r.chance(20) { "KERI11JSON000000_" } else if cred != r.chance(25) { "ACDC10JSON000000_" } else { "KERI10JSON000010_" }) }); }
    let dc = DIGS[if r.chance(2) { 0 } else { r.below(9) }];
    if !r.chance(15) { let raw = r.bytes(if dc.len() == 1 { 32 } else { 64 }); m.insert("d".into(), if r.chance(12) { gjson(r, 1) } else { J::from(q(dc, &raw)) }); }
    for _ in 0..r.below(6) { m.insert(gstr(r), gjson(r, 3)); }
    grow(r, &mut m);
    let code = if dc == "E" && r.chance(2) { "" } else if r.chance(8) { DIGS[r.below(9)] } else { dc };
    let n = r.len(20);
    let tail = if r.chance(2) { vec![] } else { r.bytes(n) };
    Some(Case::new("event").b(J::Object(m).to_string()).b(code).b(tail).n(cred as u8))
}
/// hostile raw bytes: an error or an event whose own raw bytes give the same content
fn ck_evraw(c: &Case) -> Result<bool, String> {
    let x = &c.b[0];
    let mut ok = false;
    macro_rules! go {
        ($t:ty) => {
            if let Ok(e) = <$t>::new_with_raw(x) {
                ok = true;
                ensure!(x.starts_with(&e.raw()) && e.raw().len() == e.size() as usize, "raw bytes of {:?}", String::from_utf8_lossy(x));
                let f = <$t>::new_with_raw(&e.raw()).map_err(|e| format!("{:?}: its own raw bytes are refused: {e}", String::from_utf8_lossy(x)))?;
                ensure!(f == e, "{:?}: its own raw bytes give another event", String::from_utf8_lossy(x));
                let j: J = serde_json::from_slice(&e.raw()).map_err(|_| format!("{:?} is not JSON but accepted", String::from_utf8_lossy(x)))?;
                ensure!(val(&j) == e.ked(), "{:?}: content differs", String::from_utf8_lossy(x));
                ensure!(e.saider().code() == "E" && e.saider().qb64().ok().as_deref() == j.get("d").and_then(|d| d.as_str()), "{:?}: accepted with identifier {:?}", String::from_utf8_lossy(x), e.saider().qb64().ok());
            }
        };
    }
    go!(Serder);
    go!(Creder);
    let _ = sniff(x);
    Ok(ok)
}
fn gen_evraw(r: &mut Rng, i: u64) -> Option<Case> {
    let mut c = gen_event(r, i)?;
    let J::Object(m) = serde_json::from_slice(&c.b[0]).ok()? else { return None };
    let s = sized(&m).unwrap_or(m);
    let mut x = write(&J::Object(s)).into_bytes();
    if r.chance(2) { let k = r.below(x.len()); match r.below(5) { 0 => x[k] = r.next() as u8, 1 => { x.remove(k); } 2 => x.insert(k, b' '), 3 => x.truncate(k), _ => { if x.len() > 22 { let k = (17 + r.below(6)).min(x.len() - 1); x[k] = *r.pick(b"0123456789abcdefF") } } } }
    if r.chance(6) { for _ in 0..1 + r.below(3) { let y = x.clone(); x.extend(y); } }
    x.extend(std::mem::take(&mut c.b[2]));
    Some(Case::new("evraw").b(x))
}

// ---- accessors --------------------------------------------------------------------------------
const VKEYS: &[&str] = &["B", "D", "1AAA", "1AAB", "1AAI", "1AAJ"];
fn prims(m: &Map<String, J>, k: &str, codes: &[&str], strict: bool) -> Option<Vec<o::M>> {
    match m.get(k) {
        None => Some(vec![]),
        Some(J::Array(a)) => a.iter().map(|x| o::m_parse(x.as_str()?.as_bytes()).filter(|x| codes.contains(&x.code.as_str()))).collect(),
        Some(_) => if strict { None } else { Some(vec![]) },
    }
}
fn text_of(m: &Map<String, J>, k: &str) -> Option<String> { m.get(k)?.as_str().map(|x| x.to_string()) }
fn ck_access(c: &Case) -> Result<bool, String> {
    let (Ok(J::Object(m)), cred) = (serde_json::from_slice::<J>(&c.b[0]), c.n[0] == 1) else { return Ok(false) };
    let ked = val(&J::Object(m.clone()));
    let what = J::Object(m.clone()).to_string();
    if cred {
        let Ok(e) = Creder::new_with_ked(&ked, None, None) else { return Ok(false) };
        ensure!(e.crd() == e.ked(), "{what}: content");
        ensure!(e.issuer().ok() == text_of(&m, "i"), "{what}: issuer {:?}", e.issuer());
        ensure!(e.schema().ok() == text_of(&m, "s"), "{what}: schema {:?}", e.schema());
        if let Some(a) = m.get("a") { ensure!(e.subject() == val(a), "{what}: subject {}", e.subject()); }
        let st = match m.get("ri") { None => Some(None), Some(J::String(x)) => Some(Some(x.clone())), Some(_) => None };
        ensure!(e.status().ok() == st, "{what}: status {:?}", e.status());
        ensure!(e.chains().ok() == Some(val(m.get("e").unwrap_or(&J::Object(Map::new())))), "{what}: chains {:?}", e.chains());
        return Ok(true);
    }
    let Ok(e) = Serder::new_with_ked(&ked, None, None) else { return Ok(false) };
    let ms = |x: Option<Vec<o::M>>| x;
    let got = e.verfers().ok().map(|v| v.iter().map(crate::cesr::mv).collect::<Vec<_>>());
    ensure!(got == ms(prims(&m, "k", VKEYS, false)), "{what}: keys {got:?}");
    let got = e.digers().ok().map(|v| v.iter().map(crate::cesr::mv).collect::<Vec<_>>());
    ensure!(got == ms(prims(&m, "n", DIGS, false)), "{what}: next key digests {got:?}");
    let got = e.werfers().ok().map(|v| v.iter().map(crate::cesr::mv).collect::<Vec<_>>());
    ensure!(got == ms(prims(&m, "b", VKEYS, true)), "{what}: witnesses {got:?}");
    for (k, got) in [("kt", e.tholder()), ("nt", e.ntholder())] {
        match m.get(k) {
            None => ensure!(matches!(got, Ok(None)), "{what}: {k} {got:?}"),
            Some(x) => match Tholder::new_with_sith(&val(x)) {
                Err(_) => ensure!(got.is_err(), "{what}: {k} {got:?}"),
                Ok(t) => ensure!(matches!(&got, Ok(Some(g)) if *g == t), "{what}: {k} {got:?}"),
            },
        }
    }
    let sn = text_of(&m, "s").and_then(|x| if x.is_empty() { Some(0) } else { u128::from_str_radix(&x, 16).ok() });
    ensure!(e.sn().ok() == sn && e.sner().ok().and_then(|x| x.num().ok()) == sn, "{what}: sequence number {:?}", e.sn());
    let f = text_of(&m, "f").and_then(|x| o::m_parse(x.as_bytes())).filter(|x| ["M", "0H", "N", "0A"].contains(&x.code.as_str()));
    let n = f.as_ref().map(|x| x.raw.iter().fold(0u128, |a, b| a << 8 | *b as u128));
    ensure!(e._fn().ok() == n, "{what}: first seen {:?}", e._fn());
    match m.get("f") { None => ensure!(matches!(e.fner(), Ok(None)), "{what}: first seen {:?}", e.fner()), Some(_) => ensure!(e.fner().ok().map(|x| x.map(|y| crate::cesr::mv(&y))) == f.map(Some), "{what}: first seen {:?}", e.fner()) }
    let i = text_of(&m, "i");
    ensure!(e.pre().ok() == i && e.preb().ok() == i.map(|x| x.into_bytes()), "{what}: prefix {:?}", e.pre());
    let est = text_of(&m, "t").map(|t| ["icp", "rot", "dip", "drt"].contains(&t.as_str()));
    ensure!(e.est().ok() == est, "{what}: establishment {:?}", e.est());
    Ok(true)
}
fn gprims(r: &mut Rng, codes: &[&str]) -> J {
    if r.chance(12) { return gjson(r, 1); }
    let n = if r.chance(60) { 10 + r.below(60) } else { r.below(4) };
    J::Array((0..n).map(|_| {
        if r.chance(25 * (1 + n)) { return gjson(r, 1); }
        let code = if r.chance(15 * (1 + n)) { ["A", "0B", "E", "D", "M"][r.below(5)] } else { codes[r.below(codes.len())] };
        let z = r.bytes(o::m_raw_size(code).unwrap_or(32));
        let mut t = String::from_utf8(o::m_text(&o::M { code: code.into(), size: 0, raw: z })).unwrap();
        if r.chance(20 * (1 + n)) { t.pop(); }
        J::from(t)
    }).collect())
}
fn gen_access(r: &mut Rng, i: u64) -> Option<Case> {
    let cred = r.chance(3);
    let mut m = Map::new();
    m.insert("v".into(), J::from(if cred { "ACDC10JSON000000_" } else { "KERI10JSON000000_" }));
    let raw = r.bytes(32);
    m.insert("d".into(), J::from(q("E", &raw)));
    if cred {
        for k in ["i", "s", "a", "ri", "e"] { if !r.chance(6) { m.insert(k.into(), if r.chance(2) { J::from(gstr(r)) } else { gjson(r, 2) }); } }
    } else {
        if !r.chance(8) { m.insert("k".into(), gprims(r, VKEYS)); }
        if !r.chance(8) { m.insert("n".into(), gprims(r, DIGS)); }
        if !r.chance(8) { m.insert("b".into(), gprims(r, VKEYS)); }
        for k in ["kt", "nt"] {
            if r.chance(4) { continue; }
            let t = gen_thold(r, i)?;
            m.insert(k.into(), serde_json::from_slice(&t.b[0]).ok()?);
        }
        if !r.chance(8) { let n = r.num(128); m.insert("s".into(), if r.chance(10) { gjson(r, 1) } else if r.chance(6) { J::from(gstr(r)) } else { J::from(format!("{n:x}")) }); }
        if !r.chance(3) {
            let code = ["M", "0H", "N", "0A", "0B"][r.below(5)];
            let z = r.bytes(o::m_raw_size(code).unwrap_or(2));
            m.insert("f".into(), if r.chance(8) { gjson(r, 1) } else { J::from(String::from_utf8(o::m_text(&o::M { code: code.into(), size: 0, raw: z })).unwrap()) });
        }
        if !r.chance(8) { m.insert("i".into(), if r.chance(6) { gjson(r, 1) } else { J::from(gstr(r)) }); }
        if !r.chance(8) { m.insert("t".into(), if r.chance(8) { gjson(r, 1) } else { J::from(*r.pick(&["icp", "rot", "dip", "drt", "ixn", "rct", "vcp", "ICP", "ic", "icpx"])) }); }
    }
    Some(Case::new("access").b(J::Object(m).to_string()).n(cred as u8))
}

pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { name: "json", props: &["C22"], check: ck_json, gen: gen_json, weight: 1 },
        Kind { name: "vers", props: &["C18"], check: ck_vers, gen: gen_vers, weight: 1 },
        Kind { name: "devers", props: &["C18"], check: ck_devers, gen: gen_devers, weight: 1 },
        Kind { name: "thold", props: &["C14", "C15"], check: ck_thold, gen: gen_thold, weight: 3 },
        Kind { name: "limen", props: &["C15"], check: ck_limen, gen: gen_limen, weight: 1 },
        Kind { name: "said", props: &["C16"], check: ck_said, gen: gen_said, weight: 1 },
        Kind { name: "prefix", props: &["C17"], check: ck_prefix, gen: gen_prefix, weight: 1 },
        Kind { name: "path", props: &["C20"], check: ck_path, gen: gen_path, weight: 3 },
        Kind { name: "pathx", props: &["C20"], check: ck_pathx, gen: gen_pathx, weight: 1 },
        Kind { name: "event", props: &["C23"], check: ck_event, gen: gen_event, weight: 2 },
        Kind { name: "access", props: &["C25"], check: ck_access, gen: gen_access, weight: 1 },
        Kind { name: "evraw", props: &["C23"], check: ck_evraw, gen: gen_evraw, weight: 1 },
    ]
}
