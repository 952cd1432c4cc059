//! Kinds for messages with attached signatures, receipts, runs of random keys (through the hooks).
use crate::cesr::mv;
use crate::ensure;
use crate::ev::{gjson, val, write};
use crate::fw::*;
use crate::oracle::{self as o, I, M};
use keride::cesr::{common::Version, Matter, Sadder, Serder, Siger};
use serde_json::{Map, Value as J};

fn q(code: &str, raw: &[u8]) -> String {
    String::from_utf8(o::m_text(&M { code: code.into(), size: 0, raw: raw.to_vec() })).unwrap()
}
fn sigs(c: &Case, from: usize, n: usize) -> Option<(Vec<Siger>, Vec<u8>)> {
    let k = c.b.len() - 4;
    if n > 0 && k == 0 { return None; }
    let mut v = vec![];
    let mut t = vec![];
    for i in 0..n {
        let x = &c.b[4 + (from + i) % k];
        v.push(Siger::new_with_qb64(std::str::from_utf8(x).ok()?, None).ok()?);
        t.extend(x);
    }
    Some((v, t))
}
fn ck_msg(c: &Case) -> Result<bool, String> {
    let Ok(j) = serde_json::from_slice::<J>(&c.b[0]) else { return Ok(false) };
    let Ok(serder) = Serder::new_with_ked(&val(&j), None, None) else { return Ok(false) };
    let (i, s, d) = (c.s(1), c.s(2), c.s(3));
    let flags = c.n[0];
    let (Some((sv, st)), Some((wv, wt))) = (sigs(c, 0, c.n[1] as usize), sigs(c, 1, c.n[2] as usize)) else { return Ok(false) };
    let (hs, hw, hc) = (flags & 1 > 0, flags & 2 > 0, flags & 4 > 0);
    let seal = match flags >> 3 & 3 { 0 => None, 1 => Some(true), _ => Some(false) };
    let mut want = Some(serder.raw());
    let mut put = |x: Option<Vec<u8>>| match (&mut want, x) { (Some(w), Some(x)) => w.extend(x), (w, _) => *w = None };
    if !hs && !hw && !hc { put(None); }
    let group = |code: &str, n: usize, t: &[u8]| if n > 4095 { None } else { Some([o::c_text(code, n as u32), t.to_vec()].concat()) };
    if hs {
        match seal {
            Some(true) => put(Some([o::c_text("-H", 1), i.clone().into_bytes()].concat())),
            Some(false) => put(u128::from_str_radix(&s, 16).ok().map(|n| [o::c_text("-F", 1), i.clone().into_bytes(), q("0A", &n.to_be_bytes()).into_bytes(), d.clone().into_bytes()].concat())),
            None => {}
        }
        put(group("-A", sv.len(), &st));
    }
    if hw { put(group("-B", wv.len(), &wt)); }
    let got = keride::messaging::verif::messagize(&serder, hs.then_some(&sv[..]), seal.map(|l| (i.as_str(), s.as_str(), d.as_str(), if l { Some(true) } else if flags & 32 > 0 { None } else { Some(false) })), hw.then_some(&wv[..]), hc.then_some(&[][..]));
    let what = || format!("message of {} with {} signatures ({hs}) and {} witness signatures ({hw}), seal {seal:?} {i:?} {s:?} {d:?}", j, sv.len(), wv.len());
    match (got, want) {
        (Err(_), None) => Ok(true),
        (Ok(g), None) => Err(format!("{}: made {g:?}", what())),
        (Err(e), Some(_)) => Err(format!("{}: refused: {e}", what())),
        (Ok(g), Some(w)) => { ensure!(g.as_bytes() == w, "{}: {g:?}, expected {:?}", what(), String::from_utf8_lossy(&w)); Ok(true) }
    }
}
fn gen_msg(r: &mut Rng, _i: u64) -> Option<Case> {
    let mut m = Map::new();
    m.insert("v".into(), J::from("KERI10JSON000000_"));
    m.insert("d".into(), J::from(q("E", &r.bytes(32))));
    for k in 0..r.below(3) { m.insert(format!("x{k}"), gjson(r, 1)); }
    let s = match r.below(6) { 0 => "".into(), 1 => "g".into(), 2 => format!("{:x}", r.num(128)), 3 => "f".repeat(33), 4 => format!("{:X}", r.num(64)), _ => format!("{:x}", r.num(16)) };
    let mut c = Case::new("msg").b(J::Object(m).to_string()).b(q("B", &r.bytes(32))).b(s).b(q("E", &r.bytes(32)));
    for _ in 0..1 + r.below(4) {
        let code = *r.pick(&["A", "B", "C", "D", "E", "F", "2A", "2B", "0A", "0B", "3A"]);
        let z = o::isz(code.as_bytes()).unwrap().0;
        let k = (z.fs.unwrap() - z.hs - z.ss) * 3 / 4 - z.ls;
        let index = (r.num(32) as u64 % 64u64.pow((z.ss - z.os) as u32)) as u32;
        if let Some(i) = o::i_new(code, &r.bytes(k), index, None) { c = c.b(o::i_text(&i)); }
    }
    let num = |r: &mut Rng| match r.below(40) { 0 => 4095, 1 => 4096, 2 => 4097, 3 => 64, 4 => 65, 5 => 63, _ => r.below(5) };
    let (a, b) = (num(r), num(r));
    Some(c.n(r.below(64)).n(a).n(b))
}
fn ck_rct(c: &Case) -> Result<bool, String> {
    let (pre, said, kind) = (c.s(0), c.s(1), c.s(2));
    let sn = c.n[0];
    let v = if c.n[1] == 0 { None } else { Some(Version { major: c.n[1] as u8 - 1, minor: c.n[2] as u8 }) };
    let k = if c.n[3] == 0 { None } else { Some(kind.as_str()) };
    let ok = v.as_ref().map_or(true, |v| v.major == 1 && v.minor == 0) && k.map_or(true, |k| k == "JSON") && o::m_parse(said.as_bytes()).map_or(false, |m| m.code == "E");
    let got = keride::receipting::verif::receipt(&pre, sn, &said, v.as_ref(), k);
    let what = || format!("receipt of {pre:?} {sn} {said:?} version {v:?} kind {k:?}");
    if !ok { ensure!(got.is_err(), "{}: accepted", what()); return Ok(true); }
    let e = got.map_err(|e| format!("{}: refused: {e}", what()))?;
    let mut m = Map::new();
    for (k, x) in [("v", "KERI10JSON000000_".to_string()), ("t", "rct".into()), ("d", said.clone()), ("i", pre.clone()), ("s", format!("{sn:x}"))] { m.insert(k.into(), J::from(x)); }
    let n = write(&J::Object(m.clone())).len();
    m.insert("v".into(), J::from(format!("KERI10JSON{n:06x}_")));
    let raw = write(&J::Object(m));
    ensure!(e.raw() == raw.as_bytes(), "{}: {:?}, expected {raw:?}", what(), String::from_utf8_lossy(&e.raw()));
    Ok(true)
}
fn gen_rct(r: &mut Rng, _i: u64) -> Option<Case> {
    let pre = match r.below(4) { 0 => "é\"\\\n".into(), 1 => "".into(), _ => q(["B", "D", "E"][r.below(3)], &r.bytes(32)) };
    let said = match r.below(8) { 0 => "".into(), 1 => q("F", &r.bytes(32)), 2 => "E".repeat(43), _ => q("E", &r.bytes(32)) };
    let n = r.num(128);
    Some(Case::new("rct").b(pre).b(said).b(*r.pick(&["JSON", "CBOR", "json", ""])).n(n).n([0, 0, 2, 2, 1, 3, 17][r.below(7)] as u8).n([0, 0, 0, 1][r.below(4)] as u8).n(r.below(2)))
}
fn ck_randy(c: &Case) -> Result<bool, String> {
    let codes: Vec<&str> = c.b[0].iter().map(|x| ["A", "J", "Q"][*x as usize % 3]).collect();
    let count = c.n[0] as u16;
    let code = [None, Some("A"), Some("J"), Some("Q")][c.n[1] as usize % 4];
    let tr = [None, Some(true), Some(false)][c.n[2] as usize % 3];
    let list: Vec<&str> = if codes.is_empty() { vec![code.unwrap_or("A"); count as usize] } else { codes.clone() };
    let g = keride::signify::creating::verif::randy(if c.n[3] == 0 && codes.is_empty() { None } else { Some(codes) }, Some(count), code, tr);
    ensure!(g.len() == list.len(), "{} keys, expected {}", g.len(), list.len());
    for (s, k) in g.iter().zip(&list) {
        let m = mv(s);
        let su = ["A", "J", "Q"].iter().position(|x| x == k).unwrap() as u128;
        let w = crate::typed::public(su, &m.raw).map(|p| M { code: [["B", "D"], ["1AAA", "1AAB"], ["1AAI", "1AAJ"]][su as usize][tr.unwrap_or(true) as usize].into(), size: 0, raw: p });
        ensure!(m.code == *k && Some(mv(&s.verfer())) == w, "key {m:?} of code {k} with {:?}, expected {w:?}", mv(&s.verfer()));
    }
    for i in 0..g.len() { for j in 0..i { ensure!(g[i].raw() != g[j].raw(), "keys {j} and {i} of a run are the same: {:?}", mv(&g[i])); } }
    Ok(true)
}
fn gen_randy(r: &mut Rng, _i: u64) -> Option<Case> {
    let k = if r.chance(2) { 0 } else { r.below(5) };
    Some(Case::new("randy").b((0..k).map(|_| r.below(3) as u8).collect::<Vec<u8>>()).n(r.below(6)).n(r.below(4)).n(r.below(3)).n(r.below(2)))
}
pub fn kinds() -> Vec<Kind> {
    let _: Option<I> = None;
    vec![
        Kind { name: "msg", props: &["C26"], check: ck_msg, gen: gen_msg, weight: 3 },
        Kind { name: "rct", props: &["C26"], check: ck_rct, gen: gen_rct, weight: 1 },
        Kind { name: "randy", props: &["C21"], check: ck_randy, gen: gen_randy, weight: 1 },
    ]
}
